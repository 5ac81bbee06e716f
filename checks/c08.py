from clic import *
from c04 import files


def strip(j):
    j = json.loads(json.dumps(j))
    for k in ("run_command", "satellites", "data_fields"):
        j.pop(k, None)
    return j


def check(case, rec, scratch):
    if case.get("fill"):  # more satellites than the default limit
        base, S = case["sats"], []
        for i in range(case["fill"]):
            S.append(dict(base[i % len(base)], norad=i + 1, name="S%d" % i))
        q = sky.Request(case, S)
        sky.write_cat(scratch, q)
    else:
        q = setup(case, scratch, rec)
    a = q.args(files(case, q, scratch) if case.get("cuts") else "cat.tle", drop="nI")
    single = case.get("s") is not None
    r = cli.run("sat_skymap", a + ["-n100000"], scratch)
    if r.rc and single:
        return
    if r.rc:
        raise Violation("exit %d, %r" % (r.rc, r.json["errmsg"]))
    full = sky.listed(r.json)
    d = cli.ok("sat_skymap", a, scratch)
    if sky.listed(d) != full[:1000]:
        raise Violation("%d satellites with -n100000, %d without -n: sat_skymap %s" % (len(full), len(sky.listed(d)), " ".join(a)))
    rec.label("more than 1000 match" if len(full) > 1000 else "", "exactly 1000 match" if len(full) == 1000 else "")
    for n in case["ns"]:
        b = a + ["-n%d" % n]
        j = cli.ok("sat_skymap", b, scratch)
        rows = sky.listed(j)
        cmd = "sat_skymap " + " ".join(b)
        if rows != full[:n]:
            raise Violation("%s lists %s, the first %d of the full list are %s" % (cmd, [t["norad_n"] for t in rows][:20], n, [t["norad_n"] for t in full[:n]][:20]))
        if j["n_sats_found"] != len(rows) or j["n_sats"] != len(rows) and not single or j["n_sunlit_sats"] != sum(t["data"][8] for t in rows):
            raise Violation("%s: n_sats_found %d, n_sats %d, n_sunlit_sats %d, listed %d, %d sunlit" % (cmd, j["n_sats_found"], j["n_sats"], j["n_sunlit_sats"], len(rows), sum(t["data"][8] for t in rows)))
        if j["input_params"]["max_sats"] != n:
            raise Violation("%s: max_sats %r" % (cmd, j["input_params"]["max_sats"]))
        rec.label("several files" if case.get("cuts") else "", "the limit cuts" if n < len(full) else "the limit is the number" if n == len(full) else "the limit is beyond")
        rec.nontrivial(0 < n < len(full))
        i = cli.ok("sat_skymap", b + ["-I"], scratch)
        if "satellites" in i:
            raise Violation("satellites printed with -I: " + cmd)
        if strip(i) != strip(j):
            raise Violation("%s -I: %s, without -I %s" % (cmd, {k: v for k, v in i.items() if j.get(k) != v and k != "run_command"}, {k: v for k, v in j.items() if i.get(k) != v and k not in ("satellites", "data_fields", "run_command")}))
    i = cli.ok("sat_skymap", [a[0], "-I"] + a[1:], scratch)
    if strip(i) != strip(d) or "satellites" in i:
        raise Violation("sat_skymap -I %s: %s, without -I %s" % (" ".join(a), {k: v for k, v in i.items() if d.get(k) != v and k != "run_command"}, {k: v for k, v in d.items() if i.get(k) != v and k not in ("satellites", "data_fields", "run_command")}))
    rec.nontrivial(len(full) > 0)


def case(d):
    c = gen.region_case(d, nmax=12, special=not d.chance(3))
    n = len(c["sats"])
    if d.i(0, 3):
        c["rad"] = gen.all_sky(d)
    c["V"] = d.chance(3)
    c["E"] = d.chance(6)
    c["G"] = d.chance(6)
    k = d.i(0, 9)
    if k == 0:
        c["s"] = c["sats"][d.i(0, n - 1)]["norad"]
        c["V"] = False
    elif k == 1:
        c["S"] = d.pick("STAR", "COSMOS", "1", "2", "OBJECT", "SL-")
    elif k == 2:
        c["alt"] = [d.i(0, 400000), d.i(0, 400000)]
    c["ns"] = [d.i(1, n + 3) for _ in range(2)]
    if d.chance(3) and n > 1:
        c["cuts"] = d.some(1, 3, lambda: d.i(0, n))
    c["lay"] = gen.layout(d, n)
    return c


def many(d):
    m5 = d.i(5700000000, 6300000000)
    sats = [gen.sat(d, m5 * 1e-5, classes=("geo", "meo", "leo"), names=gen.plain_name, drag=False) for _ in range(d.i(1, 8))]
    return dict(m5=m5, site=gen.site(d), sats=sats, fill=d.pick(999, 1000, 1001, 1002, 1200, 2300, 900), ns=[d.pick(1000, 999, 1001, 1, 2000, 5000)], dt=None, H=True, rad=d.pick(2600000, 2600000, 900000), V=d.chance(3),
                cuts=[d.i(0, 1200)] if d.chance(3) else None)


PARTS = [GenPart("limits", case, check, 14000, 400000, prepare=cli.prepare), GenPart("default limit", many, check, 240, 8000, prepare=cli.prepare)]
RULE = RULE + "Non-trivial: satellites are listed without a limit."
ASSUMPTIONS = ASSUME
