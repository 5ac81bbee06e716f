from clic import *


def list_text(names, how):
    """list file: entries, comments, blank lines, line ends"""
    eol = how["eol"]
    out = []
    for i, n in enumerate(names):
        out += [x[1] for x in how["junk"] if x[0] == i]
        out.append(n)
    out += [x[1] for x in how["junk"] if x[0] >= len(names)]
    return eol.join(out) + (eol if how["last_eol"] else "")


def expand(case):
    """the entries in file order: first occurrences and repetitions"""
    S, out = case["sats"], []
    for e in case["order"]:
        x = dict(S[e[0] % len(S)])
        if e[1]:  # the same satellite with other elements and name
            x["M"] = (x["M"] + 1800000) % 3600000 if "M" in x else 0
            x["name"] = "again " + x["name"]
            x["rev"] = 7
        if e[1] == 2:  # its number padded with blanks or zeros
            x["pad"] = not x.get("pad")
        out.append(x)
    return out


def norm(j):
    j = json.loads(json.dumps(j))
    j.pop("run_command", None)
    j.get("input_params", {}).pop("tle_file", None)
    return j


def check(case, rec, scratch):
    ents = expand(case)
    q = sky.Request(case, ents)
    for o in q.seen:
        rec.label("position: " + o.status)
    ends = sorted(min(c, len(ents)) for c in case["cuts"]) + [len(ents)]
    sub = case["dir"]
    d = os.path.join(scratch, sub) if sub else scratch
    os.makedirs(d, exist_ok=True)
    a, names = 0, []
    fn = case["names"]
    texts = []
    for i, e in enumerate(ends):
        n = "%d%s" % (i, fn[i % len(fn)])
        t = sky.catalogue(ents[a:e], eol=case["feol"], last_eol=case["flast"]) if e > a else ("" if e < len(ents) and ents[e].get("noname") else "# no satellite") + case["feol"]  # (in the single file this is the line above)
        cli.write(os.path.join(d, n), t)
        texts.append(t if t.endswith("\n") else t + case["feol"])
        names.append(n)
        a = e
    cli.write(os.path.join(d, "all.tle"), "".join(texts))
    cli.write(os.path.join(d, "list"), list_text(names, case["how"]))
    opts = q.args("x")[1:] + (["-D" + sub] if sub else [])
    first = case["first"]
    arg = lambda f: [f] + opts if first else opts + [f]
    lst = cli.ok("sat_skymap", arg("@list"), scratch)
    one = cli.ok("sat_skymap", arg("all.tle"), scratch)
    if norm(lst) != norm(one):
        raise Violation("sat_skymap %s: list file gives %s, the files in sequence give %s" % (" ".join(arg("@list")), [(r["name"], r["norad_n"]) for r in sky.listed(lst)], [(r["name"], r["norad_n"]) for r in sky.listed(one)]))
    if case.get("vis") is not None:
        num = case["sats"][case["vis"]]["norad"]
        vo = ["-l" + q.site_text, "-j%s,%s" % (gen.mjd_text(case["m5"]), gen.mjd_text(case["m5"] + 300)), "-r180", "-t60", "-s%d" % num] + (["-D" + sub] if sub else [])
        va, vb = [cli.run("sat_visibility", [f] + vo if first else vo + [f], scratch) for f in ("@list", "all.tle")]
        x, y = norm(va.json), norm(vb.json)
        x.pop("errmsg"), y.pop("errmsg")
        if va.rc != vb.rc or x != y:
            raise Violation("sat_visibility %s @list: %s; with the files in sequence: %s" % (" ".join(vo), x, y))
    if case.get("I"):  # the counts are those of the run that lists them
        info, one = one, cli.ok("sat_skymap", [x for x in arg("all.tle") if x != "-I"], scratch)
        if any(info[w] != one[w] for w in ("n_sats_found", "n_sats", "n_sunlit_sats")) or "satellites" in info:
            raise Violation("sat_skymap %s: %s, without -I %s" % (" ".join(arg("all.tle")), {w: info[w] for w in ("n_sats_found", "n_sats", "n_sunlit_sats")}, {w: one[w] for w in ("n_sats_found", "n_sats", "n_sunlit_sats")}))
    rows = sky.listed(one)
    nn = [r["norad_n"] for r in rows]
    if len(set(nn)) != len(nn):
        raise Violation("a satellite is listed twice: %s: sat_skymap %s" % (nn, " ".join(arg("all.tle"))))
    for r, k in q.match(rows, limit=case.get("n")):
        sky.check_identity(q, r, k)
        sky.check_data(q, r, k)
    occ = [e[0] % len(case["sats"]) for e in case["order"]]
    rep = len(set(occ)) < len(occ)
    rec.nontrivial(len(rows) > 0 and (rep or len(ends) > 1))
    rec.label("repeated satellites" if rep else "", "repeated with other elements" if rep and any(e[1] for e in case["order"]) else "", "number padded with blanks" if any(e.get("pad") and e["norad"] < 10000 for e in ents) else "", "files: %d" % min(4, len(ends)), "-D" if sub else "", "-S" if case.get("S") else "", "-I" if case.get("I") else "",
              "CR/LF list" if case["how"]["eol"] == "\r\n" else "", "comments or blank lines" if case["how"]["junk"] else "", "no final newline" if not case["how"]["last_eol"] else "", "list is the first argument" if first else "list is the last argument")


def digits12(d):
    return int("".join(d.pick("1", "2") for _ in range(5)))


def case(d):
    few = d.chance(3)
    c = gen.base(d, nmin=1, nmax=8, norad=digits12 if few else gen.norad_any, names=gen.plain_name)
    n = len(c["sats"])
    c["order"] = d.some(1, 16, lambda: [d.i(0, n - 1), d.pick(0, 0, 0, 1, 2)])
    c["cuts"] = d.some(0, 4, lambda: d.i(0, len(c["order"])))
    k = d.i(0, 5)
    if k < 4:
        c["rad"] = gen.all_sky(d)
    else:
        c["rad"] = gen.radius(d, 0)
    c["H"] = d.flag()
    c["V"] = d.chance(5)
    if d.chance(5):
        c["n"] = d.i(1, 6)
    if d.chance(5):
        c["G"] = True
    k = d.i(0, 11)
    if k < 3:
        c["S"] = d.pick("STAR", "COSMOS", "OBJECT", "SL-16", "again", "again OB", "STARLINK-1")
        c["V"] = d.flag()
    elif k == 3:
        c["alt"] = sorted((d.i(0, 400000), d.i(0, 400000)))
    elif k == 4:
        c["E"] = True
    if d.chance(6):
        c["I"] = True
    c["dir"] = d.pick("", "", "sub", "a b", "sub/../sub")
    c["names"] = d.some(1, 3, lambda: d.pick(".tle", ".txt", " with space.txt", "-x", "\u00e9.tle", "#.txt", "x" * d.i(40, 200)))
    c["feol"], c["flast"] = d.pick("\n", "\r\n"), not d.chance(4)
    c["how"] = dict(eol=d.pick("\n", "\r\n"), last_eol=not d.chance(3), junk=d.some(0, 3, lambda: [d.i(0, 5), d.pick("", "# comment", "#0.tle", "#" + "-" * 80, "#")]))
    c["first"] = d.flag()
    if d.chance(3):
        c["vis"] = d.i(0, n - 1)
    return c


# ---- catalogues larger than the index of processed satellites
def big_check(case, rec, scratch):
    base = [x for x in case["sats"]]
    n, k = case["count"], len(base)
    step = case["stride"]
    mod = 99991  # a prime: n <= mod distinct numbers
    seq = []
    for i in range(n):
        seq.append((1 + (i * step + case["start"]) % mod, base[i % k]))
    # repetitions of earlier ones, spread over the rest
    out, rep = [], 0
    for i, t in enumerate(seq):
        out.append((i, t[0], t[1]))
        if case["every"] and i % case["every"] == case["every"] - 1:
            j = (i * 7919 + case["start"]) % (i + 1)
            out.append((-1 - j, seq[j][0], seq[j][1]))
            rep += 1
    lines = []
    tl = {}
    for i, num, x in out:
        y = dict(x, norad=num)
        lines.append("S%d" % i)
        lines += model.tle_lines(y)
    cut = [0] + sorted(min(len(lines) // 3 - 1, max(1, c)) * 3 for c in case["cuts"]) + [len(lines)]
    names = []
    for i in range(len(cut) - 1):
        if cut[i + 1] > cut[i]:
            names.append("b%d" % i)
            cli.write(os.path.join(scratch, names[-1]), "\n".join(lines[cut[i]:cut[i + 1]]) + "\n")
    cli.write(os.path.join(scratch, "blist"), "\n".join(names) + "\n")
    fake = dict(case, rad=2600000, H=True)
    q = sky.Request(fake)
    if not all(o.status == "ok" for o in q.seen):
        return
    for variant in ("plain", "asan") if case["asan"] else ("plain",):
        r = cli.run("sat_skymap", ["@blist"] + q.args("x")[1:] + ["-n200000"], scratch, variant=variant, timeout=200)
        if r.rc:
            raise Violation("exit %d: %r" % (r.rc, r.json["errmsg"]))
        got = [(t["name"], t["norad_n"]) for t in sky.listed(r.json)]
        want = [("S%d" % i, num) for i, num, x in out if i >= 0]
        if got != want:
            p = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            raise Violation("%d entries, %d satellites: %d listed; at position %d %s, expected %s" % (len(out), len(want), len(got), p, got[p:p + 2], want[p:p + 2]))
        if r.json["n_sats_found"] != len(want):
            raise Violation("n_sats_found %d of %d" % (r.json["n_sats_found"], len(want)))
    rec.nontrivial(n > 11666)
    rec.label("over 11666 satellites" if n > 11666 else "fewer", "over 13333" if n > 13333 else "", "repetitions" if rep else "", "memory checker" if case["asan"] else "")


def big_case(d):
    m5 = d.i(5700000000, 6300000000)
    sats = [gen.sat(d, m5 * 1e-5, classes=("geo", "meo"), names=gen.plain_name, drag=False) for _ in range(d.i(1, 3))]
    k = d.i(0, 5)
    n = d.i(11600, 11800) if k == 0 else d.i(13200, 13500) if k == 1 else d.i(11000, 26000) if k < 5 else d.i(100, 9000)
    return dict(m5=m5, site=gen.site(d), sats=sats, count=n, stride=d.pick(1, 1, 2, 12345, 77777), start=d.i(0, 99990), every=d.pick(0, 2, 10, 1000), cuts=d.some(0, 3, lambda: d.i(1, n)), asan=d.chance(2), dt=None)


def prep():
    cli.prepare()
    cli.prepare_asan()


PARTS = [GenPart("sequence", case, check, 24000, 600000, prepare=cli.prepare),
         GenPart("large", big_case, big_check, 40, 2400, prepare=prep)]
RULE = RULE + "Non-trivial: satellites are listed and the entries are split over files or repeated; for the large catalogues: more satellites than the first size of the index."
ASSUMPTIONS = ASSUME
