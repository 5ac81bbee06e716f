from vlib.runner import CppPart
from clic import *
from common import *


def check(case, rec, scratch):
    q = setup(case, scratch, rec)
    j = cli.ok("sat_skymap", q.args(), scratch)
    for r, k in sky.row_by_norad(q, j):
        d = r["data"]
        ctx = ": sat_skymap " + " ".join(q.args())
        if not (0 <= d[0] <= 360 and -90 <= d[1] <= 90 and 0 <= d[2] <= 360 and -90 <= d[3] <= 90):
            raise Violation("RA, Dec out of range: %s%s" % (d, ctx))
        # the pixel is that of the reported place, whatever the place is
        ra, dec = radians(d[0]), radians(d[1])
        pix = model.pix_around(ra, dec, radians(0.9e-4))
        cd = cos(dec)
        # (RA and Dec are printed to 1e-4)
        for a in (-0.6e-4, 0.6e-4):
            for b in (-0.6e-4, 0.6e-4):
                pix.add(model.pix_nest(256, max(-math.pi / 2, min(math.pi / 2, dec + radians(b))), ra + radians(a)))
        if d[9] not in pix:
            raise Violation("pixel %d, the reported RA/Dec %.4f %.4f lies in %s%s" % (d[9], d[0], d[1], sorted(pix), ctx))
        o = q.seen[k]
        dist = 90 - abs(d[1])
        rec.label("pole within 0.001 degree" if dist < 1e-3 else "pole within 0.1 degree" if dist < 0.1 else "pole within 3 degrees" if dist < 3 else "elsewhere",
                  "next to RA 0" if min(d[0], 360 - d[0]) < 0.01 else "", "south" if d[1] < 0 else "north")
        rec.nontrivial()
        if o.status == "ok":
            sky.dir_close("J2000 place", d[0], d[1], o.ra1, o.dec1, o.a1 + 0.8e-4, ctx)
            sky.dir_close("J2000 place at the second epoch", d[2], d[3], o.ra2, o.dec2, o.a2 + 0.8e-4, ctx)
            rec.label("moved over the pole by the reduction" if dist < 0.5 and abs(math.remainder(o.date1[0] - o.ra1, model.TWOPI)) > 1 else "")


def case(d):
    """a site from which the satellite stands next to a chosen direction: usually a celestial pole, or RA 0"""
    m5 = gen.when(d)
    mjd = m5 * 1e-5
    jd = model.JD0 + mjd
    best = None
    for _ in range(6):
        x = gen.sat(d, mjd, names=gen.plain_name, classes=("leo", "leo", "low", "leoe", "mol"), spread=0.3)
        if d.i(0, 3):
            x["inc"] = d.i(800000, 1000000)
        p = model.Prop(x)
        # towards the largest latitude
        s = 1 if d.flag() else -1
        f = lambda M: (x.__setitem__("M", M), model.Prop(x).at((jd - p.epoch) * 1440))[1]
        cand = sorted(((r[1][2] * s, M) for M in range(0, 3600000, 100000) for r in [f(M)] if r[0] == "ok"), reverse=True)[:d.i(1, 4)]
        if not cand:
            continue
        x["M"] = (cand[-1][1] + d.i(-50000, 50000)) % 3600000
        st, r, _, _ = model.Prop(x).at((jd - p.epoch) * 1440)
        if st == "ok" and math.hypot(r[0], r[1]) < 6300:
            best = x, r
            break
    if best is None:
        return dict(m5=m5, site=gen.site(d), sats=[gen.sat(d, mjd, names=gen.plain_name)], dt=None, rad=3600000, H=False, centre=None)
    x, r = best
    rho = math.hypot(r[0], r[1])
    lat = degrees(math.acos(rho / 6378.14)) * (1 if r[2] > 0 else -1)
    for _ in range(30):  # the distance of the site from the axis
        s = model.Site(lat, 0, 0)
        lat -= degrees((s.r - rho) / 6378.14 / -math.sin(radians(lat))) if abs(lat) > 1 else 0
    lon = degrees(math.atan2(r[1], r[0]) - model.gmst(jd))
    # the pole of date or the one of J2000, give or take
    off = 10 ** -(d.i(0, 6000) / 1000.0) * 3
    if d.flag():
        off = 0.2785 / 50 * (mjd - 51544.5) / 365.25 * (1 + (off - 1.5) * 0.1)  # by which the pole has moved
    h = abs(r[2]) - 6357
    a = d.u() * model.TWOPI
    lat += degrees(radians(off) * max(100, h) / 6378) * math.cos(a)
    lon += degrees(radians(off) * max(100, h) / 6378) * math.sin(a) / max(0.05, cos(radians(lat)))
    lat = max(-90, min(90, lat))
    site = [int(round(lat * 1e5)), int(round(((lon + 180) % 360 - 180) * 1e5)), 0]
    dt = d.pick(None, 1, 2, 10)
    return dict(m5=m5, site=site, sats=[x], dt=dt, rad=3600000, H=d.flag(), centre=None)




PARTS = [CppPart("library", "astro", ["j2000"], 6_000_000, 200_000_000), GenPart("programs", case, check, 20000, 500000, prepare=cli.prepare)]
RULE = RULE_CPP + ("A case is a direction (poles, RA 0, whole sphere) and a date within decades of J2000; for sat_skymap a satellite and a site from which it stands next to a celestial pole. "
                   "Non-trivial in the programs: a satellite was listed and its pixel compared with its printed place.")
ASSUMPTIONS = COMMON + ASSUME
