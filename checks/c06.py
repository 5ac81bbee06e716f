from clic import *


def check(case, rec, scratch):
    q = setup(case, scratch, rec)
    a = q.args()
    j = cli.run("sat_skymap", a, scratch)
    if j.rc != 0 and case.get("s") is not None and any(o.status != "ok" for o in q.seen):
        return
    if j.rc != 0:
        raise Violation("sat_skymap %s: exit %d, %r" % (" ".join(a), j.rc, j.json["errmsg"]))
    j = j.json
    rows = sky.listed(j)
    asked = any(case.get(k) for k in ("G", "E", "alt")) or case.get("s") is not None
    if asked != ("geoloc_fields" in j):
        raise Violation("geoloc_fields %s: sat_skymap %s" % ("missing" if asked else "given though not asked for", " ".join(a)))
    for r, k in sky.row_by_norad(q, j):
        if asked:
            if sky.check_geoloc(q, r, k):
                rec.nontrivial()
                g = r["geoloc"]
                rec.label(g["lat"] < -45 and "far south", g["lat"] > 45 and "far north", abs(g["lat"]) > 85 and "near a pole", abs(g["lon"]) > 170 and "near the date line", g["alt"] > 50000 and "above 50000 km", g["alt"] < 300 and "below 300 km")
        elif "geoloc" in r:
            raise Violation("geoloc given though not asked for: sat_skymap %s" % " ".join(a))
    q.match(rows)
    if case.get("alt"):
        # exactly the satellites of the unfiltered run whose altitude is in the range
        b = q.args(drop="a") + ([] if case.get("G") else ["-G"])
        full = sky.listed(cli.ok("sat_skymap", b, scratch))
        lo, hi = sorted(v * 0.1 for v in case["alt"])
        single = case.get("s") is not None
        must = [r for r in full if single or lo + 0.0051 <= r["geoloc"]["alt"] <= hi - 0.0051]
        may = [r for r in full if single or lo - 0.0051 <= r["geoloc"]["alt"] <= hi + 0.0051]
        it = iter(may)
        if not all(r in it for r in rows) or not all(r in rows for r in must):
            raise Violation("sat_skymap %s lists %s, without -a %s" % (" ".join(a), [(r["norad_n"], r["geoloc"]) for r in rows], [(r["norad_n"], r["geoloc"]) for r in full]))
        rec.label("altitude filter", 0 < len(rows) < len(full) and "filter keeps some", case["alt"][0] > case["alt"][1] and "limits swapped", single and "filter with -s")
    if case.get("E"):
        rec.label("-E haversine" if q.hav else "-E plane")
        regs = [q.in_region(o) for o in q.seen if o.status == "ok"]
        rec.label(YES in regs and NO in regs and "-E inside and outside", case.get("centre") and "-E and -p")
        for r, k in sky.row_by_norad(q, j):
            o = q.seen[k]
            if o.status == "ok":
                sky.close("Separation", r["data"][5], q.sep_of(o)[0], q.sep_tol(o)[0] + 0.6e-4 + 1e-4, "; " + q.why(k, "with -E"))
        z = j["input_params"]["region"]
        sky.close("region ra", math.remainder(z["ra"] - q.lmst * 15, 360), 0, 2e-4)
        sky.close("region dec", z["dec"], q.dec_deg, 2e-4)


def case(d):
    c = gen.region_case(d)
    k = d.i(0, 3)
    n = len(c["sats"])
    if k == 0:
        c["G"] = True
    if k == 1 or d.chance(8):
        c["E"] = True
    if k == 2 or d.chance(6):
        # limits near the altitudes there are
        q = sky.Request(c)
        hs = [int(q.alt(o) * 10) for o in q.seen if o.status == "ok"] or [5000]
        f = lambda: d.pick(*hs) + d.i(-300, 300) if d.i(0, 3) else d.i(-10, 500000)
        c["alt"] = [f(), f()]
        c["G"] = d.flag()
    if k == 3 and d.flag():
        c["s"] = c["sats"][d.i(0, n - 1)]["norad"]
    elif d.chance(6):
        v = cli.b(sky.s(sky.name_of(c["sats"][d.i(0, n - 1)]["name"]))[:d.i(1, 4)])[:23].decode("utf-8", "ignore")
        if v.strip() and not v.startswith("-"):
            c["S"] = v
    if d.i(0, 2):
        c["rad"] = gen.all_sky(d)
    return c


PARTS = [GenPart("geodetic", case, check, 40000, 1000000, prepare=cli.prepare)]
RULE = RULE + "Non-trivial: at least one listed satellite whose geodetic location was compared with the model."
ASSUMPTIONS = ASSUME
