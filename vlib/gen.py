"""Generators of catalogues, sites, dates and regions over vlib.draw.  Everything is JSON-able."""
import math

from . import model

XKE = model.XKE
NAME_CH = "ABCXYZabc019 -()[]/.&'\"\\,:;{}<>%@#$!?*_+=~\t\x7f\u00e9\u03a9\u2603\U0001f680"
SPECIAL_NAMES = ("", "   ", "ISS (ZARYA)", "12345678901234567890123", "123456789012345678901234567", "STARLINK-23             ", "ab\"c\\d", "\u00e9" * 14, "-h", "@x", "%s%n", "\x01\x1fz",
                 "12345678901234567890 23 5", "1234567890123456789012345678901234567890", "A", "1", "2", "1K", "\\", "\"\"\"\"", "x" * 60)


def ang(d):
    return d.pick(0, 900000, 1800000, 2700000, 3599999) if d.chance(9) else d.i(0, 3599999)


def fix_name(n):
    """keeps a name line from looking like an element line or being split"""
    n = n.replace("\n", " ").replace("\r", " ").replace("\0", " ")
    if n[:2] in ("1 ", "2 "):
        n = "X" + n
    return n


def name(d):
    k = d.i(0, 5)
    if k < 3:
        return d.pick("STARLINK-", "COSMOS ", "OBJECT ", "SL-16 R/B ", "0 FENGYUN 1C DEB ", "1KUNS-PF ", "2000-", "1WORLDS-", "ISS (ZARYA) ", "22", "1", "2") + str(d.i(0, 99))
    if k < 5:
        return fix_name(d.text(NAME_CH, 0, 40))
    return d.pick(*SPECIAL_NAMES)


def plain_name(d):
    return d.pick("STARLINK-", "COSMOS ", "OBJECT ", "SL-16 R/B ") + str(d.i(0, 99))


def desig(d):
    if d.chance(5):
        return d.pick("", "98067A", "57001A", "57001B", "56999ZZZ", "00001A", "99999A", "98067AB", "98067")
    return "%02d%03d%s" % (d.i(0, 99), d.i(1, 999), d.pick("A", "B", "C", "Z", "AA", "ZZ", "AAA", "DXC"))


def norad_plain(d):
    k = d.i(0, 7)
    return d.i(1, 99999) if k < 5 else d.i(1, 99) if k == 5 else d.i(100000, 339999) if k == 6 else d.pick(1, 9, 10, 99999, 100000, 109999, 110000, 179999, 180000, 229999, 230000, 339999)


def norad_any(d):
    k = d.i(0, 5)
    return d.i(1, 99999) if k < 2 else d.i(100000, 339999) if k == 2 else d.i(340000, 45435423) if k == 3 else d.i(1, 99) if k == 4 else d.pick(
        0, 1, 9, 10, 99999, 100000, 109999, 110000, 179999, 180000, 229999, 230000, 339999, 340000, 32412063, 32412064, 41845023, 41845024, 44619423, 44619424, 45435423)


LEO, LEOE, MEO, GEO, MOL, GTO, HIGH, HEO, LOW = "leo", "leoe", "meo", "geo", "mol", "gto", "high", "heo", "low"
CLASSES = (LEO, LEO, LEO, LEOE, MEO, GEO, MOL, GTO, HIGH, HEO, LOW)


def mean_motion(a):
    return math.sqrt(XKE ** 2 / a ** 3) * 1440 / model.TWOPI


def sat(d, mjd, norad=norad_plain, classes=CLASSES, spread=1.0, names=name, drag=True):
    """one element set whose epoch lies around mjd"""
    c = d.pick(*classes)
    u, w = d.u(), d.u()
    R, nd = model.RE72, mean_motion
    if c == LEO:
        e = 0.02 * w ** 3
        n = nd((1 + (250 + 1300 * u) / R) / (1 - e))
    elif c == LEOE:
        e = 0.3 * w
        n = nd((1 + (250 + 1000 * u) / R) / (1 - e))
    elif c == MEO:
        n, e = 1.9 + 0.2 * u, 0.02 * w
    elif c == GEO:
        n, e = 1.0027379 + 0.02 * (u - 0.5), 0.01 * w * w
    elif c == MOL:
        n, e = 2.0056 + 0.02 * (u - .5), 0.6 + 0.13 * w
    elif c == GTO:
        n = 2.1 + 3.5 * u
        e = 1 - (1 + (250 + 800 * w) / R) / ((XKE / (n * model.TWOPI / 1440)) ** (2. / 3))
    elif c == HIGH:
        n, e = 0.12 + 0.8 * u, 0.5 * w
    elif c == HEO:
        n = 0.2 + 0.7 * u
        e = 1 - (1 + (500 + 9000 * w) / R) / ((XKE / (n * model.TWOPI / 1440)) ** (2. / 3))
    else:  # LOW
        e = 0.005 * w
        n = nd((1 + (150 + 150 * u) / R) / (1 - e))
    k = d.i(0, 3)
    inc = d.i(0, 1100000) if k < 2 else d.i(0, 1400000) if k == 2 else d.pick(0, 1, 515000, 516400, 634349, 900000, 979000, 1165651, 1500000)
    k = d.i(0, 3)
    off = (d.i(-30000, 300000) if k < 2 else d.i(-300000, 1200000) if k == 2 else d.i(-3000, 3000)) / 1e5 * spread  # days before the request
    yr, day = model.epoch_fields(max(2436000.0, model.JD0 + mjd - off))
    b = (0, 0)
    if drag and c in (LEO, LEOE, LOW):
        b = (d.i(-20000, 99999), -d.i(4, 7))
    elif drag and d.chance(4):
        b = (d.i(0, 99999), -5)
    return dict(name=names(d), norad=norad(d), desig=desig(d), yr=yr, day=day, bstar=b, inc=inc, node=ang(d), ecc=max(0, int(e * 1e7)), argp=ang(d),
                M=ang(d), n=int(n * 1e8), rev=d.i(0, 99999), bul=d.i(0, 9999), ndot=d.pick(0, 1234, -567, 99999999), cls="U", et=d.pick("0", "0", " "), oc=c, pad=d.chance(5), noname=d.chance(12))


def hsat(d, mjd, norad=norad_plain, names=name):
    """a state-vector ('H') satellite: distance 50 000 km to a million"""
    r = math.exp(d.u() * math.log(20)) * 5e7
    e = d.i(0, 1200) / 1000.0
    mu = 3.986e14
    # at perigee or apogee, turned by three angles; perigee kept above 40 000 km
    if d.flag() and e < 1:
        if r * (1 - e) / (1 + e) < 4e7:
            e = (r - 4e7) / (r + 4e7)
        v = math.sqrt(mu * (1 - e) / r)
    else:
        v = math.sqrt(mu * (1 + e) / r)
    A, B, C = [math.radians(d.i(0, 3599) / 10.0) for _ in range(3)]
    B /= 2
    s, c = math.sin, math.cos
    P = (c(A) * c(C) - s(A) * s(C) * c(B), s(A) * c(C) + c(A) * s(C) * c(B), s(C) * s(B))
    Q = (-c(A) * s(C) - s(A) * c(C) * c(B), -s(A) * s(C) + c(A) * c(C) * c(B), c(C) * s(B))
    off = (d.i(-300000, 300000) if d.flag() else d.i(-3000, 3000)) / 1e5
    yr, day = model.epoch_fields(max(2436000.0, model.JD0 + mjd - off))
    return dict(name=names(d), norad=norad(d), desig=desig(d), yr=yr, day=day, H=[int(r * P[k]) for k in range(3)] + [int(v * Q[k] * 1e4) for k in range(3)],
                rev=d.i(0, 99999), bul=d.i(0, 9999), cls="U", oc="H")


def dead(d, mjd, norad=norad_plain, names=name):
    """elements for which the theory has no position at mjd: strong drag, long ago"""
    s = sat(d, mjd, norad, (LOW, LEO), names=names)
    s["oc"] = "dead"
    for _ in range(10):
        s["bstar"] = (d.i(10000, 99999), d.i(-2, 0))
        s["yr"], s["day"] = model.epoch_fields(max(2436000.0, model.JD0 + mjd - d.i(3, 1000)))
        p = model.Prop(s)
        if p.at((model.JD0 + mjd - p.epoch) * 1440)[0] == "none":
            break
    return s


def edge(d, mjd, norad=norad_plain, names=name):
    """elements whose position exists at one end of a day at mjd only: (elements, seconds between the two), or None"""
    s = sat(d, mjd, norad, (LOW, LEO), names=names)
    s["oc"] = "edge"
    s["bstar"] = (d.pick(1, -1) * d.i(30000, 99999), d.i(-1, 0))
    way = d.pick(1, -1)
    p = model.Prop(s)
    t, ok, out = 20.0, None, None
    while t < 6000:
        st, r, _, _ = p.at(way * t)
        if st == "ok":
            ok = t
            if math.hypot(*r) > 6450:
                out = t
        elif st == "none":
            break
        t *= 1.06
    else:
        return None
    if ok is None:
        return None
    if out and (t - out) * 60 < 165000 and d.i(0, 3):  # outside the Earth while it lasts
        ok = out
    dt = int((t - ok) * 60) + d.i(0, 600)
    if dt > 170000:
        return None
    first = ok if way > 0 else -t
    if d.chance(3):  # the last positions there are, some inside the Earth
        dt = d.i(1, 60)
        first = way * ok - (dt / 60 if way > 0 else 0)  # minutes from the epoch at the first of the two
    s["yr"], s["day"] = model.epoch_fields(max(2436000.0, model.JD0 + mjd - first / 1440))
    return s, dt


def uniq(sats):
    """distinct catalogue numbers"""
    seen, out = set(), []
    for s in sats:
        while s["norad"] in seen:
            s["norad"] = (s["norad"] + 1) % 340000
        seen.add(s["norad"])
        out.append(s)
    return out


def when(d):
    """MJD in units of 1e-5 day"""
    k = d.i(0, 7)
    if k < 5:
        return d.i(4500000000, 6500000000)
    if k == 5:
        return d.i(3700000000, 7100000000)
    if k == 6:
        return d.i(37000, 71000) * 100000 + d.pick(0, 1, 50000, 49999, 99999, 25000)
    return d.pick(5886150000, 5154450000, 5154400000, 6000000000)


def mjd_text(m5):
    return "%d.%05d" % divmod(m5, 100000)


def site(d):
    """latitude, longitude in 1e-5 degree, height in 0.1 m"""
    lat = d.pick(0, 9000000, -9000000, 4452804, -2925627, 8999999, 1) if d.chance(5) else d.i(-9000000, 9000000)
    lon = d.pick(0, 18000000, -18000000, 36000000, -36000000, 35999999, -1, 1133715) if d.chance(5) else d.i(-18000000, 36000000)
    return [lat, lon, d.pick(0, 24000, 235, -4000, 90000) if d.chance(3) else d.i(-4000, 90000)]


def dec5(v, k=5):
    """integer in units of 10^-k -> decimal text"""
    s, a = ("-" if v < 0 else ""), abs(v)
    return "%s%d.%0*d" % (s, a // 10 ** k, k, a % 10 ** k)


def site_text(s):
    return "%s,%s,%s" % (dec5(s[0]), dec5(s[1]), dec5(s[2], 1))


def delta(d):
    k = d.i(0, 4)
    return None if k == 0 else d.i(1, 5) if k == 1 else d.i(1, 600) if k == 2 else d.i(600, 90000) if k == 3 else d.pick(1, 3, 60, 1799, 1800, 86400)


def centre(d, nsat):
    """absolute (1e-4 degree) or relative to a satellite (separation in 1e-4 degree, position angle)"""
    k = d.i(0, 9)
    if k < 6 and nsat:
        q = d.i(0, 2)
        return dict(sat=d.i(0, nsat - 1), sep=d.i(0, (20000, 600000, 1800000)[q]), pa=d.i(0, 359), second=d.chance(4))
    if k < 9:
        return dict(ra=d.pick(0, 3600000, 1, 3599999, 1800000) if d.chance(3) else d.i(0, 3600000), dec=d.pick(900000, -900000, 0, 899999) if d.chance(3) else d.i(-900000, 900000))
    return None


def radius(d, nsat):
    k = d.i(0, 9)
    if k == 0:
        return None
    if k < 5 and nsat:
        q = d.i(0, 2)
        return dict(of=d.i(0, nsat - 1), far=d.flag(), delta=d.i(*((-60, 60), (-3000, 3000), (-1000, 200000))[q]))
    return d.i(0, 200000) if k == 5 else d.i(0, 900000) if k == 6 else d.i(0, 1900000) if k < 9 else d.pick(0, 1800000, 900000, 3600000)


def base(d, nmin=1, nmax=14, dt=True, norad=norad_plain, names=name, classes=CLASSES, special=True, spread=1.0):
    """date, site, catalogue"""
    m5 = when(d)
    mjd = m5 * 1e-5
    sats, ddt = [], delta(d) if dt else None
    if dt and special and d.chance(16):
        x = edge(d, mjd, norad, names)
        if x:
            ddt = x[1]
            sats.append(x[0])
    for _ in range(d.i(nmin, nmax) - len(sats)):
        k = d.i(0, 24) if special else 0
        if k == 24:
            sats.append(dead(d, mjd, norad, names))
        elif k == 23:
            sats.append(hsat(d, mjd, norad, names))
        else:
            sats.append(sat(d, mjd, norad, classes, spread, names))
    return dict(m5=m5, site=site(d), sats=uniq(sats), dt=ddt)


JUNK = ("", "# a comment", "   ", "Total: 12 objects", "1 short", "2 25544", "<html>", "1 25544U 98067A   20103.50000000  .00000000  00000-0  00000-0 0  9999 x", "\t", "z" * 300)


def layout(d, n):
    return dict(eol=d.pick("\n", "\r\n"), junk=[[d.i(0, n), d.pick(*JUNK)] for _ in range(d.i(0, 3))], last_eol=not d.chance(5))


def region_case(d, **kw):
    c = base(d, **kw)
    n = len(c["sats"])
    c["centre"] = centre(d, n)
    c["rad"] = radius(d, n)
    c["H"] = d.flag()
    return c


def aim_shadow(d, s, m5, dt=0):
    """turns the mean anomaly of a satellite so that it is in the Earth's shadow, or next to its edge"""
    if "H" in s:
        return
    jd = model.JD0 + m5 * 1e-5
    sv = model.vec(*model.sun(jd))

    def lit(M):
        s["M"] = M % 3600000
        p = model.Prop(s)
        st, r, _, _ = p.at((jd - p.epoch) * 1440)
        if st != "ok":
            return None
        # (a sharp edge, for the search)
        al = sum(r[k] * sv[k] for k in range(3))
        off = math.sqrt(max(0, sum(c * c for c in r) - al * al))
        return not (al < 0 and off < model.ERAD)
    m0 = s["M"]
    dark = None
    for k in range(10):
        M = d.i(0, 3599999)
        if lit(M) is False:
            dark = M
            break
    if dark is None:
        s["M"] = m0
        return
    if d.flag():
        a, b = dark, dark + 1800000  # towards the other side
        if lit(b):
            for _ in range(d.i(4, 13)):
                m = (a + b) // 2
                if lit(m) is False:
                    a = m
                else:
                    b = m
            s["M"] = (a if d.flag() else b) % 3600000
            return
    s["M"] = dark


def all_sky(d):
    """a radius that takes everything"""
    return d.pick(2600000, 3600000)
