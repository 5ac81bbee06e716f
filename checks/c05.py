from clic import *


def check(case, rec, scratch):
    q = setup(case, scratch, rec)
    full = cli.ok("sat_skymap", q.args(drop="V"), scratch)
    rows = sky.listed(full)
    for r, k in sky.row_by_norad(q, full):
        o, f = q.seen[k], r["data"][8]
        if f not in (0, 1):
            raise Violation("sunlit flag %r" % (f,))
        if o.status == "ok":
            v = q.lit(o)
            if v != MAYBE:
                rec.nontrivial()
                rec.label("sunlit" if v == YES else "in shadow", v == NO and q.sats[k]["oc"] in ("geo", "high", "heo", "mol", "H") and "in shadow, high orbit")
                sv = q.sunvec
                al = sum(o.p2[i] * sv[i] for i in range(3))
                off = math.sqrt(max(0, sum(c * c for c in o.p2) - al * al))
                rec.label(al < 0 and abs(off - model.ERAD) < 60 and "within 60 km of the shadow's edge", v == YES and al < 0 and "sunlit on the night side")
                if f != (v == YES):
                    raise Violation(q.why(k, "flagged %d (distance of the Sun line from the Earth's centre %.1f km, %s side)" % (f, off, "night" if al < 0 else "day")))
            else:
                rec.label("on the edge")
    if full["n_sunlit_sats"] != sum(r["data"][8] for r in rows):
        raise Violation("n_sunlit_sats %d, %d rows have flag 1: sat_skymap %s" % (full["n_sunlit_sats"], sum(r["data"][8] for r in rows), " ".join(q.args(drop="V"))))
    a = q.args(drop="V") + ["-V"]
    lit = cli.ok("sat_skymap", a, scratch)
    want = [r for r in rows if r["data"][8] == 1]
    if sky.listed(lit) != want:
        raise Violation("sat_skymap %s lists %s, the sunlit ones without -V are %s" % (" ".join(a), [(r["norad_n"], r["data"]) for r in sky.listed(lit)], [(r["norad_n"], r["data"]) for r in want]))
    if lit["n_sunlit_sats"] != len(want) or lit["n_sats_found"] != len(want):
        raise Violation("with -V n_sunlit_sats %d, n_sats_found %d, %d listed: sat_skymap %s" % (lit["n_sunlit_sats"], lit["n_sats_found"], len(want), " ".join(a)))
    rec.label(0 < len(want) < len(rows) and "-V drops some")
    if case.get("info"):  # the counts alone
        for b, w in ((q.args(drop="V"), rows), (a, want)):
            j = cli.ok("sat_skymap", b + ["-I"], scratch)
            if j["n_sunlit_sats"] != sum(r["data"][8] for r in w) or j["n_sats_found"] != len(w):
                raise Violation("n_sats_found %d, n_sunlit_sats %d; without -I %s are listed: sat_skymap %s" % (j["n_sats_found"], j["n_sunlit_sats"], [(r["norad_n"], r["data"][8]) for r in w], " ".join(b + ["-I"])))
        rec.label("-I", any(r["data"][5] > q.rad for r in rows) and "-I, in the region at the second epoch only")
    n = case.get("lim")
    if n and case.get("s") is None:
        for b, w in ((q.args(drop="V"), rows), (a, want)):
            b = b + ["-n%d" % n]
            lim = cli.ok("sat_skymap", b, scratch)
            if sky.listed(lim) != w[:n] or lim["n_sats_found"] != len(w[:n]) or lim["n_sunlit_sats"] != sum(r["data"][8] for r in w[:n]):
                raise Violation("n_sats_found %d, n_sunlit_sats %d, listed %s; without -n %s: sat_skymap %s" % (lim["n_sats_found"], lim["n_sunlit_sats"], [(r["norad_n"], r["data"][8]) for r in sky.listed(lim)], [(r["norad_n"], r["data"][8]) for r in w], " ".join(b)))
        rec.label(n <= len(want) and "limit reached")


def case(d):
    c = gen.region_case(d, nmax=8)
    for s in c["sats"]:
        if not d.chance(3):
            gen.aim_shadow(d, s, c["m5"])
    if d.i(0, 3):
        c["dt"] = d.i(1, 3)
    if d.chance(3):
        c["info"] = True
    if d.chance(4):
        c["lim"] = d.i(1, 5)
    k = d.i(0, 5)
    if k < 4:
        c["rad"] = gen.all_sky(d)
    if k == 1:
        c["alt"] = sorted((d.i(0, 400000), d.i(0, 400000)))
    if k == 2:
        c["E"] = True
    if k == 3 and d.flag():
        c["s"] = c["sats"][d.i(0, len(c["sats"]) - 1)]["norad"]
        if any(x["oc"] in ("dead", "edge") for x in c["sats"]):
            c["s"] = None
    return c


PARTS = [GenPart("shadow", case, check, 30000, 800000, prepare=cli.prepare)]
RULE = RULE + "Non-trivial: at least one listed satellite certainly in or out of the shadow."
ASSUMPTIONS = ASSUME
