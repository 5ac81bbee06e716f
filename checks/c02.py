from clic import *


def check(case, rec, scratch):
    q = setup(case, scratch, rec)
    j = cli.ok("sat_skymap", q.args(), scratch)
    rows = sky.listed(j)
    pairs = q.match(rows)
    n = j["n_sats_found"]
    if n != len(rows):
        raise Violation("n_sats_found %d, %d listed; %s" % (n, len(rows), q.args()))
    regs = [q.in_region(o) for o in q.seen if o.status == "ok"]
    rec.nontrivial(YES in regs or NO in regs)
    rec.label("haversine" if q.hav else "plane", "zenith region" if q.zenith else "given region")
    rec.label(YES in regs and "some inside", NO in regs and "some outside", MAYBE in regs and "some on the edge")
    for o in q.seen:
        if o.status == "ok":
            sp, tl = q.sep_of(o), q.sep_tol(o)
            a = sky.bound(sp[0], q.rad, tl[0] + 1e-4)
            b = sky.bound(sp[1], q.rad, tl[1] + 1e-4)
            rec.label(a == NO and b == YES and "enters by the second epoch", a == YES and b == NO and "leaves before the second epoch", abs(sp[0] - q.rad) < 0.1 and "within 0.1 degree of the edge")
    rec.label(q.rad > 180 and "radius over 180", q.rad < 1 and "radius under 1")
    rec.label((abs(q.dec_deg) + q.rad > 90) and "pole inside", (q.ra_deg < q.rad or q.ra_deg > 360 - q.rad) and "across RA 0", bool(pairs) and "listed")


def case(d):
    c = gen.region_case(d)
    c["lay"] = gen.layout(d, len(c["sats"]))
    return c


PARTS = [GenPart("region", case, check, 50000, 1500000, prepare=cli.prepare)]
RULE = RULE + "Non-trivial: at least one satellite certainly inside or outside the region."
ASSUMPTIONS = ASSUME
