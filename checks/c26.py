"""The scripts that keep a directory of TLE files, and the lists of files that go with it.  The scripts run as copies in which
/tmp, /usr/local/bin and /usr/local/TLErepo are folders of the scratch directory, with a stand-in for curl that answers from a
plan and for date, as an unprivileged user."""
from clic import *
from vlib import build
import re, shutil, subprocess

STUB = """#!/bin/sh
# answers request number k from the plan: HTTP code, and the body whatever the code
u=; o=
while [ $# -gt 0 ]; do
  case "$1" in
    -o) o=$2; shift;; --output) o=$2; shift;; --max-time|-w|--write-out|-m) shift;; -*) ;; *) u=$1;;
  esac
  shift
done
echo "$u" >> @S@/log
k=$(wc -l < @S@/log)
read -r code body < @S@/plan/$k
[ "$code" != kill ] || { head -c 100 @S@/body/$body > "${o:-/dev/stdout}"; kill -9 0; }
[ "$body" = none ] || cat @S@/body/$body > "${o:-/dev/stdout}"
printf %s "$code"
[ "$code" != 000 ]
"""
DATE = """#!/bin/sh
case "$*" in *%s*) echo @T@;; *) echo "Thu Jan  1 00:00:00 UTC 1970";; esac
"""
GROUP = re.compile(r"[?&](GROUP|SPECIAL|FILE)=([^&=]+)$")
SPECIAL = (("science.txt", ("HST", "CXO", "GLAST", "SWIFT", "NUSTAR", "AGILE", "INTEGRAL", "ASTROSAT", "HXMT", "XMM", "WISE", "SDO", "IXPE")), ("stations.txt", ("ZARYA",)), ("active.txt", ("CHEOPS", "TESS")))
PROBES = (("gaia_2025.txt", "Gaia", "GAIA"), ("jwt_2025.txt", "James", "JAMES WEBB"), ("euclid_2025.txt", "Euclid", "EUCLID"), ("juice_2024.txt", "JUICE", "JUICE"))
KEPT = """last-30-days stations visual active analyst weather noaa goes resource sarsat dmc tdrss argos spire geo iridium iridium-NEXT globalstar swarm amateur x-comm other-comm satnogs gorizont raduga molniya
gnss gps-ops glo-ops galileo beidou sbas nnss musson science geodetic engineering education military radar cubesat other starlink oneweb planet glonass meteosat intelsat ses telesat orbcomm iss cpf
1982-092 1999-025 iridium-33-debris cosmos-2251-debris gpz gpz-plus""".split()
DEBRIS = ("1982-092", "1999-025", "iridium-33-debris", "cosmos-2251-debris")
NOT_COUNTED = ("iss",)


def repo():
    return os.path.dirname(cli.prog_dir())


def script(name, dst, S):
    t = open(os.path.join(build.REPO, "scripts", name), errors="surrogateescape").read()
    t = re.sub(r"(?<![\w.])/usr/local/TLErepo\b", S + "/repo", t)
    t = re.sub(r"(?<![\w.])/usr/local/bin\b", S + "/bin", t)
    t = re.sub(r"(?<![\w./])/tmp\b", S + "/tmp", t)
    with open(dst, "w", errors="surrogateescape") as f:
        f.write(t)
    os.chmod(dst, 0o755)


_who = []


def who():
    """an unprivileged user, when there is one to become"""
    if not _who:
        try:
            subprocess.run(["true"], user=65534, group=65534, extra_groups=[], check=True)
            _who.append(dict(user=65534, group=65534, extra_groups=[]))
        except (OSError, PermissionError, subprocess.SubprocessError):
            _who.append({})
    return _who[0]


def text(sats):
    return "".join("%s\r\n%s\r\n%s\r\n" % ((n,) + tuple(l)) for n, l in sats)


def body_sats(case):
    """catalogues the stand-in answers with: [(name, lines)]"""
    return [[(n, model.tle_lines(x)) for n, x in c] for c in case["bodies"]]


def setup(case, scratch):
    S = os.path.join(scratch, "w")
    shutil.rmtree(S, ignore_errors=True)
    os.chmod(scratch, 0o711)
    for q in ("", "bin", "stub", "tmp", "repo", "plan", "body", "cwd"):
        os.mkdir(os.path.join(S, q))
    for n, t in (("curl", STUB), ("date", DATE)):
        p = os.path.join(S, "stub", n)
        with open(p, "w") as f:
            f.write(t.replace("@S@", S).replace("@T@", str(case["now"])))
        os.chmod(p, 0o755)
    script("tle_retrieve.sh", S + "/bin/tle_retrieve.sh", S)
    script("tle_satcount.sh", S + "/bin/tle_satcount.sh", S)
    return S


def run(S, cmd, cwd):
    w = who()
    if w:
        for a, b, c in os.walk(S):
            os.chown(a, 65534, 65534)
            for f in c:
                os.chown(os.path.join(a, f), 65534, 65534)
    e = {"PATH": S + "/stub:/usr/bin:/bin", "LC_ALL": "C", "HOME": S}
    try:
        r = subprocess.run(["bash"] + cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, start_new_session=True, **w)
    except subprocess.TimeoutExpired:
        raise Violation("%s did not end in 60 s" % cmd)
    return r


def files(d):
    return {n: open(os.path.join(d, n), "rb").read() for n in sorted(os.listdir(d))}


def diff(a, b):
    return "%r is %r, expected %r" % next((k, (a.get(k) or b"")[:300], b.get(k) if b.get(k) is None else b[k][:300]) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k))


def counts(S, d, want_files, rec):
    """what the counting script leaves, against the files there are"""
    f = files(d)
    php = f.get("cur_tlesat_count.php", b"").decode()
    got = {}
    for k, v in re.findall(r'["\']([^"\']+)["\']\s*=>\s*([^,\s)]*)', php):
        if k in got:
            raise Violation("%s counted twice: %s" % (k, php))
        got[k] = v
    want, ids, deb = {}, set(), 0
    for n, sats in want_files.items():
        n = n[:-4]
        if n not in KEPT or n in NOT_COUNTED:
            continue
        want[n] = len(sats)
        if n in DEBRIS:
            deb += len(sats)
        else:
            ids |= {l[1][2:7] for _, l in sats}
    want["@ALL_merged_nodeb"], want["@ALL_merged"] = len(ids), len(ids) + deb
    try:
        num = {k: float(v) for k, v in got.items()}
    except ValueError:
        raise Violation("counts %s" % php)
    if num != {k: float(v) for k, v in want.items()}:
        k = sorted(k for k in set(num) | set(want) if num.get(k) != want.get(k))
        raise Violation("counts %s, expected %s" % ({x: got.get(x) for x in k}, {x: want.get(x) for x in k}))
    got = f.get("cur_norad_ids.lis", b"").decode().split()
    if got != sorted(ids):
        raise Violation("numbers listed %s, expected %s" % (got, sorted(ids)))
    if "cur_norad_ids.lis_tmp" in f:
        raise Violation("the temporary list is still there")


def count(case, rec, scratch):
    """the counting script on a directory of files"""
    S = setup(case, scratch)
    bodies = body_sats(case)
    have = {}
    for n, k in case["files"]:
        have[n] = bodies[k % len(bodies)]
        cli.write(os.path.join(S, "repo", n), text(have[n]))
    if case["stale"]:  # what a run that was stopped half-way leaves
        cli.write(os.path.join(S, "repo", "cur_norad_ids.lis_tmp"), "99999\n")
        cli.write(os.path.join(S, "repo", "cur_norad_ids.lis"), "88888\n")
        cli.write(os.path.join(S, "tmp", "tle_satcount.log"), "stations 99\n")
        cli.write(os.path.join(S, "tmp", "tle_satcount_deb.log"), "1999-025 99\n")
    before = files(os.path.join(S, "repo"))
    how = case["how"]
    d = os.path.join(S, "repo")
    r = run(S, [S + "/bin/tle_satcount.sh"] + ([] if how == 0 else [d] if how == 1 else ["../repo"]), os.path.join(S, "cwd"))
    if r.returncode:
        raise Violation("tle_satcount.sh: exit code %d, %s" % (r.returncode, r.stderr.decode(errors="replace")[-300:]))
    counts(S, d, have, rec)
    after = files(d)
    if any(after.get(n) != before[n] for n in have):
        raise Violation("tle_satcount.sh changed a TLE file: " + diff({n: after.get(n) for n in have}, before))
    rec.nontrivial(len(have) > 0)
    rec.label("after a run that was stopped" if case["stale"] else "", "no debris file" if not any(n[:-4] in DEBRIS for n in have) else "", "relative path" if how == 2 else "default path" if how == 0 else "")


def retrieve(case, rec, scratch):
    """the retrieval script with downloads that fail and succeed"""
    S = setup(case, scratch)
    bodies = body_sats(case)
    d = os.path.join(S, "repo")
    have, lst = {}, {}
    for n, k in case["files"]:
        lst[n] = bodies[k % len(bodies)]
        have[n] = text(lst[n]).encode()
    for k, b in enumerate(bodies):
        cli.write(os.path.join(S, "body", str(k)), text(b))
    cli.write(os.path.join(S, "body", "bad"), "No GP data found\r\n")
    plan = case["plan"]
    for k in range(120):
        code, b = plan[k % len(plan)]
        cli.write(os.path.join(S, "plan", str(k + 1)), "%s %s\n" % ("kill" if case["kill"] == k + 1 else code, 0 if case["kill"] == k + 1 else b))
    mjd = case["now"] // 86400 + 40588
    probes = {}
    for i, (n, a, b) in enumerate(PROBES):
        if case["probes"] >> i & 1:
            t, want = "", b""
            for q in range(case["span"]):
                day = mjd + q - case["lead"]
                e = case["probe_el"][(i + q) % len(case["probe_el"])]
                l1, l2 = model.tle_lines(e)
                t += "# Worst residual: %d.%02d km\n# MJD %d.000000 (2025 Jan  1  0:00)\n%s = 2013-074A = NORAD %d\n%s\n%s\n\n" % (q % 60, q % 100, day, {"James": "James Webb Space Telescope"}.get(a, a), e["norad"], l1, l2)
                if day == mjd:
                    want = ("# MJD %d.000000 (2025 Jan  1  0:00)\n%s\n%s\n%s\n" % (day, b, l1, l2)).encode()
            have[n] = t.encode()
            probes[i] = want
    for n, t in have.items():
        cli.write(os.path.join(d, n), t)
    how = case["how"]
    if how == 3:  # a directory that is not there
        cli.write(os.path.join(S, "cwd", "stations.txt"), "keep me\n")
        cli.write(os.path.join(S, "cwd", "gps.txt"), "keep me\n")
        cw = files(os.path.join(S, "cwd"))
        run(S, [S + "/bin/tle_retrieve.sh", S + "/nowhere"], os.path.join(S, "cwd"))
        if files(os.path.join(S, "cwd")) != cw:
            raise Violation("the directory to keep does not exist, and the current one was changed: " + diff(files(os.path.join(S, "cwd")), cw))
        rec.nontrivial()
        rec.label("directory missing")
        return
    r = run(S, [S + "/bin/tle_retrieve.sh"] + ([] if how == 0 else [d] if how == 1 else ["../repo"]), os.path.join(S, "cwd"))
    if os.listdir(os.path.join(S, "cwd")):
        raise Violation("files written to the current directory: %s" % os.listdir(os.path.join(S, "cwd")))
    asked = open(os.path.join(S, "log")).read().split("\n")[:-1]
    names, good = [], 0
    want, wl, new, older = dict(have), dict(lst), {}, {}
    for k, u in enumerate(asked):
        m = GROUP.search(u)
        if not m:
            raise Violation("request for %r" % u)
        n = m.group(2)
        n = {"gps": "gps-ops"}.get(n, "iridium-NEXT" if m.group(1) == "FILE" and n == "iridium" else n)
        names.append(n)
        code, b = plan[k % len(plan)]
        if code == "200" and k + 1 != case["kill"]:
            good += 1
            if n + ".txt" in new:
                older.setdefault(n + ".txt", []).append(new[n + ".txt"])
            new[n + ".txt"] = text(bodies[int(b)]).encode()
            want[n + ".txt"], wl[n + ".txt"] = text(bodies[int(b)]).encode(), bodies[int(b)]
    if case["kill"] and case["kill"] <= len(asked):  # every file whole: what was downloaded, or what was there
        got = files(d)
        for n in set(got) | set(have):
            if n in ("tle.tmp", "special.txt") or n.startswith("cur_"):
                continue
            m = "gps-ops.txt" if n == "gps.txt" else n
            if n not in got or got[n] not in [x for x in (have.get(n), new.get(m), *older.get(m, ())) if x is not None]:
                raise Violation("stopped in download %d, %s is %r, was %r, downloaded %r" % (case["kill"], n, (got.get(n) or b"")[:200], (have.get(n) or b"")[:200], (new.get(m) or b"")[:200]))
        rec.nontrivial(good > 0)
        rec.label("stopped during a download")
        return
    miss = [n for n in KEPT if n not in names]
    if miss:
        raise Violation("%s not asked for" % miss)
    sp = b""
    for n, words in SPECIAL:
        for name, l in wl.get(n, []):
            if any(w in name for w in words):
                sp += ("%s\n%s\n%s\n" % ((name,) + tuple(l))).encode()
    for i in sorted(probes):
        sp += probes[i]
    want["special.txt"] = sp
    got = files(d)
    left = {n: v for n, v in got.items() if n != "tle.tmp" and not n.startswith("cur_")}
    if left != want:
        raise Violation("after the retrieval (%d of %d downloads good) %s" % (good, len(asked), diff(left, want)))
    counts(S, d, wl, rec)
    rec.nontrivial(0 < good < len(asked))
    rec.label("no download succeeds" if not good else "all succeed" if good == len(asked) else "some downloads fail", "spacecraft of the day" if any(probes.values()) else "", "special satellites" if sp else "", "relative path" if how == 2 else "default path" if how == 0 else "")


# ---------------------------------------------------------------- generators
NAMES = ("ISS (ZARYA)", "HST", "SWIFT", "GLAST", "TESS", "CHEOPS", "ASTROSAT", "XMM-NEWTON", "COSMOS 2251 DEB", "STARLINK-1", "CSS (TIANHE)", "SDO", "IXPE", "NUSTAR", "OBJECT B", "AGILE", "INTEGRAL", "CXO", "WISE", "HXMT (INSIGHT)", "DTUSAT")


def bodies(d):
    out = []
    for _ in range(d.i(1, 5)):
        c = []
        for _ in range(d.i(0, 4)):
            x = gen.sat(d, 60700.0, names=gen.plain_name, norad=lambda d: d.i(1, 40) if d.flag() else d.i(10000, 339999), classes=("leo", "geo", "mol"))
            x["pad"], x["desig"] = False, gen.desig(d) or "98067A"
            c.append([d.pick(*NAMES), x])
        out.append(c)
    return out


def some_files(d):
    k = d.i(0, 3)
    ns = list(KEPT) if k == 0 else [n for n in KEPT if d.i(0, k)] if k < 3 else d.some(0, 4, lambda: d.pick(*KEPT))
    if d.chance(6):
        ns = [n for n in ns if n not in DEBRIS]
    return [[n + ".txt", d.i(0, 9)] for n in dict.fromkeys(ns)]


def count_case(d):
    return dict(bodies=bodies(d), files=some_files(d), stale=d.chance(3), how=d.i(0, 2), now=0)


def retrieve_case(d):
    b = bodies(d)
    k = d.i(0, 5)
    bad = lambda: [d.pick("404", "000", "500", "403", "301"), d.pick("bad", "none", "0")]
    ok = lambda: ["200", str(d.i(0, len(b) - 1))]
    plan = [ok() if k == 0 or k > 1 and d.i(0, k) else bad() for _ in range(d.i(1, 90))]
    el = [gen.hsat(d, 60700.0, names=gen.plain_name) if d.flag() else gen.sat(d, 60700.0, names=gen.plain_name) for _ in range(d.i(1, 4))]
    for x in el:
        x["desig"] = "13074A"
        x["pad"] = False
    now = d.i(60000, 61500)
    if d.chance(3):  # the day's number inside somebody's elements
        e = d.pick(*el)
        if "H" not in e:
            e["M"] = 60700
        e["norad"] = now + 1
    span = d.i(1, 6)
    return dict(bodies=b, files=[f for f in some_files(d) if f[0] != "gps.txt"], plan=plan, now=(now - 40587) * 86400 + d.i(0, 86399), probes=d.i(0, 15), span=span, lead=d.i(-1, span), probe_el=el, kill=d.i(1, 64) if d.chance(5) else 0, how=3 if d.chance(12) else d.i(0, 2))


def lists(case, rec, scratch):
    """the lists of files name files that the retrieval keeps; a run on them equals a run on their files"""
    name = case["list"]
    L = [l for l in open(os.path.join(build.REPO, name)).read().split()]
    w = [n for n in L if n[:-4] not in KEPT]
    if w or len(set(L)) != len(L):
        raise Violation("%s names %s, which the retrieval script does not keep (or one file twice)" % (name, w))
    if name == "ALL_merged_nodeb.lis":
        if any(n[:-4] in DEBRIS for n in L):
            raise Violation("%s names a file of debris" % name)
        full = open(os.path.join(build.REPO, "ALL_merged.lis")).read().split()
        if [n for n in full if n[:-4] not in DEBRIS] != L:
            raise Violation("ALL_merged.lis without debris is not ALL_merged_nodeb.lis")
    S = os.path.join(scratch, "l")
    shutil.rmtree(S, ignore_errors=True)
    os.mkdir(S)
    b = body_sats(case)
    for i, n in enumerate(KEPT):
        cli.write(os.path.join(S, n + ".txt"), text(b[case["pick"][i % len(case["pick"])] % len(b)]))
    shutil.copyfile(os.path.join(build.REPO, name), os.path.join(S, name))
    args = ["-l" + gen.site_text(case["site"]), "-j60700.0", "-r360", "-H", "-n100000"]
    j = cli.ok("sat_skymap", ["@" + name] + args, S)
    order = []
    for n in L:
        for _, l in b[case["pick"][KEPT.index(n[:-4]) % len(case["pick"])] % len(b)]:
            if l[1][2:7] not in order:
                order.append(l[1][2:7])
    got = [model.norad_text(t["norad_n"]) for t in sky.listed(j)]
    if got != order:
        raise Violation("sat_skymap @%s lists %s, the files hold %s" % (name, got, order))
    rec.nontrivial(bool(order))
    rec.label(name)


def lists_case(d):
    b = [c for c in bodies(d) if c] or [[["HST", gen.sat(d, 60700.0, classes=("leo",))]]]
    for c in b:
        for n, x in c:
            x["pad"], x["ecc"] = False, min(x["ecc"], 7000000)
            x["bstar"] = (0, 0)
    return dict(list=d.pick("ALL_merged.lis", "ALL_merged_nodeb.lis"), bodies=b, pick=[d.i(0, 9) for _ in range(d.i(1, 30))], site=gen.site(d))


PARTS = [GenPart("retrieve", retrieve_case, retrieve, 300, 12000), GenPart("count", count_case, count, 400, 16000), GenPart("lists", lists_case, lists, 1500, 60000, prepare=cli.prepare)]
RULE = RULE + "A case is a directory of TLE files with a plan of answers for the downloads, or one of the lists of files. Non-trivial: some downloads succeed and some fail, files are there to be counted, or satellites are listed."
ASSUMPTIONS = ASSUME + ["curl and date are stand-ins; in the scripts' text /tmp, /usr/local/bin and /usr/local/TLErepo stand for folders of the scratch directory"]
