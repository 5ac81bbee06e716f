"""Own model of what the programs should answer: TLE formatting and decoding, topocentric places with the
reference propagator, Sun, shadow, geodetic location, HEALPix pixel.  Shares no code with the project."""
import ctypes, math
from math import pi, sin, cos, tan, atan2, asin, acos, sqrt, degrees, radians, fmod, floor, hypot

from . import build

JD0 = 2400000.5
J2000 = 2451545.0
ERAD = 6378.1366
FLAT = 3.352819697896193e-3
AU = 149597870.700
RE72 = 6378.135
XKE = 0.0743669161331734132
TWOPI = 2 * pi
B34 = "0123456789ABCDEFGHJKLMNPQRSTUVWXYZ"

_ref = None


def ref():
    global _ref
    if _ref is None:
        _ref = ctypes.CDLL(build.reflib())
        _ref.ref_gmst.restype = ctypes.c_double
        _ref.ref_gmst.argtypes = [ctypes.c_double]
        P = ctypes.POINTER(ctypes.c_double)
        _ref.ref_sgp4.argtypes = [P, ctypes.c_double, P, P, P, ctypes.c_int]
        _ref.ref_high.argtypes = [P, ctypes.c_double, ctypes.c_double, ctypes.c_int, P, P]
        _ref.ref_is_deep.argtypes = [P]
    return _ref


# ---------------------------------------------------------------- two-line elements
def checksum(s):
    return sum(int(c) if c.isdigit() else 1 if c == "-" else 0 for c in s[:68]) % 10


def norad_text(n):
    """The five characters of a catalogue number: plain, Alpha-5, or the extension described in get_el.c."""
    if n < 100000:
        return "%05d" % n
    if n < 340000:
        return B34[n // 10000] + "%04d" % (n % 10000)
    m = n - 340000
    if m < 32072064:
        q, l = divmod(m, 24)
        return _b34(q, 4) + B34[10 + l]
    m -= 32072064
    if m < 9432960:
        q, l = divmod(m, 240)
        return _b34(q, 3) + B34[10 + l // 10] + "%d" % (l % 10)
    m -= 9432960
    if m < 2774400:
        q, l = divmod(m, 2400)
        return _b34(q, 2) + B34[10 + l // 100] + "%02d" % (l % 100)
    m -= 2774400
    q, l = divmod(m, 24000)
    return _b34(q, 1) + B34[10 + l // 1000] + "%03d" % (l % 1000)


def _b34(q, k):
    s = ""
    for _ in range(k):
        q, r = divmod(q, 34)
        s = B34[r] + s
    return s


def _sci(m, e):
    return ("-" if m < 0 else " ") + "%05d" % abs(m) + ("-" if e <= 0 else "+") + "%d" % abs(e)


def _b36(v):
    s, n = "", abs(v)
    for _ in range(8):
        n, r = divmod(n, 36)
        s = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[r] + s
    return ("-" if v < 0 else "+") + s


def tle_lines(s):
    """s: the integers of the columns."""
    nt = "%5d" % s["norad"] if s.get("pad") and s["norad"] < 100000 else norad_text(s["norad"])
    head = "1 %s%s %-8s %02d%012.8f " % (nt, s.get("cls", "U"), s["desig"], s["yr"], 0)
    d, f = divmod(s["day"], 10 ** 8)
    head = "1 %s%s %-8s %02d%03d.%08d " % (nt, s.get("cls", "U"), s["desig"], s["yr"], d, f)
    if "H" in s:
        l1 = head + " ".join(_b36(v) for v in s["H"][:3]) + "H"
        l1 = (l1 + " %4d" % s.get("bul", 999))
        l2 = "2 %s %-24s " % (nt, "") + " ".join(_b36(v) for v in s["H"][3:])
        l2 = l2.ljust(63) + "%5d" % s.get("rev", 0)
    else:
        nd = s.get("ndot", 0)
        l1 = head + ("-" if nd < 0 else " ") + ".%08d " % abs(nd) + _sci(*s.get("nddot", (0, 0))) + " " + _sci(*s["bstar"]) + " " + s.get("et", "0") + " %4d" % s.get("bul", 999)
        n, nf = divmod(s["n"], 10 ** 8)
        l2 = "2 %s %3d.%04d %3d.%04d %07d %3d.%04d %3d.%04d %2d.%08d%5d" % ((nt,) + divmod(s["inc"], 10000) + divmod(s["node"], 10000) + (s["ecc"],)
             + divmod(s["argp"], 10000) + divmod(s["M"], 10000) + (n, nf, s.get("rev", 0)))
    assert len(l1) == 68 and len(l2) == 68, (l1, l2)
    return l1 + "%d" % checksum(l1), l2 + "%d" % checksum(l2)


def epoch_jd(s):
    """Julian date of the element epoch (1957-2056)."""
    y = s["yr"]
    if y < 57:
        y += 100
    d, f = divmod(s["day"], 10 ** 8)
    return (d + f * 1e-8) + 2415019.5 + float(y * 365 + (y - 1) // 4)


def epoch_fields(jd):
    """(yy, day * 1e8) of a Julian date."""
    for yy in range(57, 157):
        j0 = 2415019.5 + yy * 365 + (yy - 1) // 4
        n = 366 if yy % 4 == 0 else 365
        if jd < j0 + 1 + n:
            break
    return yy % 100, int(round((jd - j0) * 1e8))


def elements(s):
    """epoch JD, bstar, e, argp, incl, M, n, node for the reference propagator"""
    m, x = s["bstar"]
    a = pi / 180e4
    return [epoch_jd(s), m * 1e-5 * 10.0 ** x, s["ecc"] * 1e-7, s["argp"] * a, s["inc"] * a, s["M"] * a, s["n"] * 1e-8 * TWOPI / 1440, s["node"] * a]


def full_desig(s):
    d = s["desig"].ljust(8)
    if d[0] == " ":
        return "none"
    head = int("".join(c for c in d[:5] if c.isdigit()))
    return (("19" if head > 57000 else "20") + d[:2] + "-" + d[2:]).rstrip()


# ---------------------------------------------------------------- propagation
A3, A10, A8 = ctypes.c_double * 3, ctypes.c_double * 12, ctypes.c_double * 8
A6 = ctypes.c_double * 6


class Prop:
    """Positions of one element set with the uncertainty (km) two correct programs may show."""

    def __init__(self, s):
        self.s = s
        self.high = "H" in s
        if self.high:
            h = s["H"]
            self.state = [float(h[0]), float(h[1]), float(h[2]), h[3] * 1e-4, h[4] * 1e-4, h[5] * 1e-4]
            self.cst = A6(*self.state)
            self.epoch = epoch_jd(s)
            self.deep = True
        else:
            self.el = elements(s)
            self.cel = A8(*self.el)
            self.epoch = self.el[0]
            self.deep = bool(ref().ref_is_deep(self.cel))
            self.P = TWOPI / self.el[6]

    def at(self, t):
        """t in minutes -> (status, position, velocity km/min, tolerance km); status 'ok', 'none', 'avoid'"""
        r, v, info = A3(), A3(), A10()
        if self.high:
            ref().ref_high(self.cst, self.epoch, t, 96, r, v)
            R1, V1 = A3(), A3()
            ref().ref_high(self.cst, self.epoch, t, 1, R1, V1)
            tol = 2e-4 + 3 * math.dist(r, R1) + 1e-9 * math.dist(r, (0, 0, 0))
            return ("ok" if tol < 5 and math.dist(r, (0, 0, 0)) > 6600 else "avoid"), list(r), list(v), tol
        el = self.el
        k = ref().ref_sgp4(self.cel, t, r, v, info, 1 if self.deep else 0)
        a_e = (XKE / el[6]) ** (2. / 3)
        if k == 1:
            margin = (abs(abs(info[3]) - 1) < 2e-3 or ((el[2] > 0.98 or a_e * (1 - el[2]) < 0.95) and abs(abs(info[3]) - 1) < 0.05)
                      or abs(info[5] * (1 - info[3] * info[3])) < 0.5 or abs(info[5]) > 1e3)
            return ("avoid" if margin else "none"), None, None, 0
        if k in (2, 4) or info[5] < 0.3 or info[3] > 0.999 or info[8] > 0.999:
            return "avoid", None, None, 0
        if el[2] > 0.98 or a_e * (1 - el[2]) < 0.95 or info[5] * (1 - abs(info[3])) < 0.8 or info[5] > 50:
            return "avoid", None, None, 0
        if not all(map(math.isfinite, r)):
            return "avoid", None, None, 0
        days = abs(t) / 1440
        tol = (2e-4 + 1e-5 * days) * max(1.0, info[5] ** 2) if not self.deep else 1e-3 + 1e-4 * days
        tol /= max(1e-3, 1 - abs(info[3]))
        if days > 60:
            return "avoid", None, None, 0
        if abs(el[1]) > 2e-3:
            tol *= 300
        if info[3] < 3e-6:
            tol += 3e-6 * info[5] * RE72
        return "ok", list(r), list(v), tol

    def cache_tol(self, dt, t=0.0):
        """Second of two times asked for: lunar-solar terms of the deep-space model may be half an hour old, and the
        resonance integrator may have come another way."""
        if not self.deep or self.high:
            return 0.0
        n = self.el[6]
        e = 0.0
        if 0.0034906 < n < 0.005237 or 8.25e-3 < n < 9.25e-3 and self.el[2] > 0.49:
            e = 0.1 * (1 + (abs(t) + dt / 60) / 1440)
        return e + 1.2 / (1 - self.el[2]) * max(1.0, self.P / 1440) ** (8. / 3) * min(1.0, dt / 1800.) * (1 if dt < 1801 else 0)


# ---------------------------------------------------------------- observer, Sun, angles
EA, EB = 6378140.0, 6356755.0


def gmst(jd):
    """radians"""
    return ref().ref_gmst(jd)


class Site:
    def __init__(self, lat, lon, h):
        self.lat, self.lon, self.h = lat, lon + 360 if lon < 0 else lon, h
        q = EB / EA
        la = radians(lat)
        u = atan2(sin(la) * q, cos(la))
        self.z = (q * sin(u) + h / EA * sin(la)) * EA / 1000
        self.r = (cos(u) + h / EA * cos(la)) * EA / 1000

    def pos(self, jd):
        l = radians(self.lon) + gmst(jd)
        return (cos(l) * self.r, sin(l) * self.r, self.z)

    def lmst(self, jd):
        """hours"""
        return ((degrees(gmst(jd)) + self.lon) / 15) % 24


def radec(p, o):
    v = (p[0] - o[0], p[1] - o[1], p[2] - o[2])
    d = sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
    return atan2(v[1], v[0]) % TWOPI, asin(max(-1, min(1, v[2] / d))), d


def to_j2000(jd, ra, dec):
    t = (jd - J2000) / 36525
    m = radians((3.07496 + .00186 * t / 2) / 240)
    n = radians((1.33621 - .00057 * t / 2) / 240)
    ra, dec = ra - 100 * t * (m + n * sin(ra) * tan(dec)), dec - 100 * t * n * cos(ra)
    if dec > pi / 2:
        dec, ra = pi - dec, ra + pi
    elif dec < -pi / 2:
        dec, ra = -pi - dec, ra + pi
    return ra % TWOPI, dec


def magnify(dec, dec2000):
    """by how much the first-order reduction may stretch a small difference of direction"""
    c = max(1e-9, cos(dec))
    return 1 + 0.006 / c + 0.006 * max(cos(dec2000), c) / c ** 2


def sep(ra1, dec1, ra2, dec2):
    """degrees, from radians"""
    a, c = vec(ra1, dec1), vec(ra2, dec2)
    x = (a[1] * c[2] - a[2] * c[1], a[2] * c[0] - a[0] * c[2], a[0] * c[1] - a[1] * c[0])
    return degrees(atan2(sqrt(x[0] ** 2 + x[1] ** 2 + x[2] ** 2), a[0] * c[0] + a[1] * c[1] + a[2] * c[2]))


def vec(ra, dec):
    c = cos(dec)
    return (c * cos(ra), c * sin(ra), sin(dec))


def plane_sep(ra1, dec1, ra2, dec2):
    return degrees(hypot(math.remainder(ra1 - ra2, TWOPI), dec1 - dec2))


def offset(ra, dec, s, pa):
    """the direction s away (radians) from (ra, dec) at position angle pa"""
    d2 = asin(max(-1, min(1, sin(dec) * cos(s) + cos(dec) * sin(s) * cos(pa))))
    r2 = ra + atan2(sin(s) * sin(pa) * cos(dec), cos(s) - sin(dec) * sin(d2))
    return r2 % TWOPI, d2


def sun(jd):
    """Astronomical Almanac low-precision Sun: RA, Dec of date (radians); good to 0.01 degree"""
    n = jd - J2000
    g = radians(357.528 + 0.9856003 * n)
    l = radians(280.460 + 0.9856474 * n + 1.915 * sin(g) + 0.020 * sin(2 * g))
    e = radians(23.439 - 0.0000004 * n)
    return atan2(cos(e) * sin(l), cos(l)) % TWOPI, asin(sin(e) * sin(l))


def sun_theory(jd):
    """Meeus' solar theory with perturbations (0.001 degree): apparent RA, Dec of date (radians)"""
    u = (jd + 65 / 86400 - 2415020) / 36525
    t = u - 1
    m, om = radians(358.47583 + 35999.04975 * u - 0.00015 * u * u - 0.0000033 * u ** 3), radians(125.04 - 1934.136 * t)
    l = 279.69668 + 36000.76892 * u + 0.0003025 * u * u
    l += (1.919460 - 0.004789 * u - 0.000014 * u * u) * sin(m) + (0.020094 - 0.0001 * u) * sin(2 * m) + 0.000293 * sin(3 * m)
    l += 0.00134 * cos(radians(153.23 + 22518.7541 * u)) + 0.00154 * cos(radians(216.57 + 45037.5082 * u)) + 0.002 * cos(radians(312.69 + 32964.3577 * u))
    l += 0.00179 * sin(radians(350.74 + 445267.1142 * u - 0.00144 * u * u)) + 0.00178 * sin(radians(231.19 + 20.20 * u))
    l = radians(l - 0.00569 - 0.00478 * sin(om))
    e = radians(23.4392911 - 0.0130042 * t + 0.00256 * cos(om))
    return atan2(cos(e) * sin(l), cos(l)) % TWOPI, asin(sin(e) * sin(l)), e


def altaz(dec, ha, lat):
    """radians -> (alt, az, parallactic angle) in degrees, az north through east, and cos(alt)"""
    x = -sin(ha) * cos(dec)
    y = sin(dec) * cos(lat) - cos(dec) * cos(ha) * sin(lat)
    z = sin(dec) * sin(lat) + cos(dec) * cos(ha) * cos(lat)
    ca = hypot(x, y)
    q = degrees(atan2(sin(ha) * cos(lat), sin(lat) * cos(dec) - sin(dec) * cos(lat) * cos(ha)))
    return degrees(atan2(z, ca)), degrees(atan2(x, y)) % 360, q, ca


def sunlit(pos, sunvec, margin_k=4e-4):
    """True, False or None (on the edge): does the line to the Sun miss the Earth?"""
    r = sqrt(pos[0] ** 2 + pos[1] ** 2 + pos[2] ** 2)
    d = [AU * sunvec[k] - pos[k] for k in range(3)]
    l = sqrt(d[0] ** 2 + d[1] ** 2 + d[2] ** 2)
    along = -(pos[0] * d[0] + pos[1] * d[1] + pos[2] * d[2]) / l  # of the Earth's centre, towards the Sun
    off = sqrt(max(0.0, r * r - along * along))
    m = 1 + margin_k * r
    if r < ERAD + m:
        return False if r < ERAD - m else None
    if abs(along) <= 3 * m + 50 and off < ERAD + m:
        # abreast of the centre and outside the sphere cannot happen; close to it is the terminator on the sphere
        return None
    if along < 0:
        return True
    if off > ERAD + m:
        return True
    if off < ERAD - m:
        return False
    return None


def geodetic(p, g):
    """lat, lon, alt, theta for a position and sidereal time (radians)"""
    th = degrees(atan2(p[1], p[0]))
    r = hypot(p[0], p[1])
    e2 = FLAT * (2 - FLAT)
    # Bowring's start, then Newton on the meridian ellipse
    bb = ERAD * (1 - FLAT)
    la = atan2(p[2] * (1 + 1e-12), r * (1 - e2)) if r or p[2] else 0.0
    for _ in range(12):
        c = 1 / sqrt(1 - e2 * sin(la) ** 2)
        nla = atan2(p[2] + ERAD * c * e2 * sin(la), r)
        if abs(nla - la) < 1e-14:
            la = nla
            break
        la = nla
    c = 1 / sqrt(1 - e2 * sin(la) ** 2)
    if abs(la) < pi / 4:
        alt = r / cos(la) - ERAD * c
    else:
        alt = p[2] / sin(la) - ERAD * c * (1 - e2)
    lon = math.remainder(th - degrees(g), 360)
    return degrees(la), lon, alt, th


# ---------------------------------------------------------------- HEALPix, nested, by definition
JRLL = (2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4)
JPLL = (1, 3, 5, 7, 0, 2, 4, 6, 1, 3, 5, 7)


def _spread(v):
    r = 0
    k = 0
    while v:
        r |= (v & 1) << (2 * k)
        v >>= 1
        k += 1
    return r


def pix_nest(nside, dec, ra):
    """pixel of the HEALPix projection: face and the two face coordinates"""
    z = sin(dec)
    tt = (ra % TWOPI) / (pi / 2)  # [0,4)
    za = abs(z)
    if za <= 2. / 3:
        t1 = nside * (0.5 + tt)
        t2 = nside * z * 0.75
        jp, jm = int(floor(t1 - t2)), int(floor(t1 + t2))
        ifp, ifm = jp // nside, jm // nside
        face = (ifp & 3) | 4 if ifp == ifm else (ifp & 3 if ifp < ifm else (ifm & 3) + 8)
        ix, iy = jm & (nside - 1), nside - (jp & (nside - 1)) - 1
    else:
        nt = min(int(tt), 3)
        tp = tt - nt
        # sqrt(3(1-|z|)) without cancellation
        tmp = nside * sqrt(6.0) * abs(sin((pi / 2 - abs(dec)) / 2))
        jp, jm = min(int(tp * tmp), nside - 1), min(int((1 - tp) * tmp), nside - 1)
        if z >= 0:
            face, ix, iy = nt, nside - jm - 1, nside - jp - 1
        else:
            face, ix, iy = nt + 8, jp, jm
    return face * nside * nside + _spread(ix) + 2 * _spread(iy)


def pix_around(ra, dec, tol):
    """order-8 pixels of all directions within tol radians (sampled)"""
    out = {pix_nest(256, dec, ra)}
    for f in (1.0, 0.5):
        for k in range(8):
            out.add(pix_nest(256, *reversed(offset(ra, dec, tol * f, k * pi / 4 + 1e-3))))
    return out


# ---------------------------------------------------------------- what sat_skymap sees of one satellite
class Seen:
    pass


def see(prop, jd, dt, site, obs1, obs2, sv=None):
    """Everything about one satellite for one request, or status 'none' / 'avoid'."""
    o = Seen()
    t1 = (jd - prop.epoch) * 1440.0
    s1, p1, v1, e1 = prop.at(t1)
    t2 = t1 + dt * 1440.0 / 86400.0
    s2, p2, v2, e2 = prop.at(t2)
    o.status = "avoid" if "avoid" in (s1, s2) else "none" if "none" in (s1, s2) else "ok"
    o.s1, o.s2 = s1, s2
    if o.status != "ok":
        return o
    jit = 7e-7 * 60 * 8 / 60  # Julian dates are good to 40 microseconds: 0.3 m of a low orbit
    e1 += 0.0005 + jit
    o.cache = prop.cache_tol(dt, t1)
    e2 += 0.0005 + jit + o.cache
    o.p1, o.p2, o.v1, o.e1, o.e2 = p1, p2, v1, e1, e2
    ra, dec, o.d1 = radec(p1, obs1)
    rb, decb, o.d2 = radec(p2, obs2)
    o.date1, o.date2 = (ra, dec), (rb, decb)
    o.ra1, o.dec1 = to_j2000(jd, ra, dec)
    o.ra2, o.dec2 = to_j2000(jd, rb, decb)
    # direction tolerance, degrees; the first-order precession magnifies differences next to the poles
    o.a1 = degrees(e1 / max(o.d1, 1.0)) * magnify(dec, o.dec1)
    o.a2 = degrees(e2 / max(o.d2, 1.0)) * magnify(decb, o.dec2)
    if o.d1 < 20 or o.d2 < 20:
        o.status = "avoid"
    return o
