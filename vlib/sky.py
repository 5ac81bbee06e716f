"""sat_skymap: turns a generated case into files and arguments, and says what the answer may be."""
import math, os
from math import degrees, radians, cos

from . import cli, gen, model
from .runner import Violation

YES, NO, MAYBE = 1, 0, -1


def AND(*a):
    return NO if NO in a else MAYBE if MAYBE in a else YES


def OR(*a):
    return YES if YES in a else MAYBE if MAYBE in a else NO


def bound(x, lim, tol):
    """x <= lim?"""
    return YES if x <= lim - tol else NO if x > lim + tol else MAYBE


def name_of(line):
    """what a program can know of a name line: 23 bytes, trailing space off"""
    return cli.b(line)[:23].rstrip(b" \t\n\v\f\r")


def own_name(x):
    """name of a generated satellite: none when there is no line of its own above the elements"""
    return b"" if x.get("noname") else name_of(x["name"])


def s(bts):
    return bts.decode("utf-8", "surrogateescape")


def catalogue(sats, eol="\n", junk=(), last_eol=True):
    """junk: list of [position, line]"""
    out = []
    for i, x in enumerate(sats):
        out += [j[1] for j in junk if j[0] == i and not x.get("noname")]  # any text there would be the name
        if not x.get("noname"):
            out.append(x["name"])
        out += list(model.tle_lines(x))
    out += [j[1] for j in junk if j[0] >= len(sats)]
    return eol.join(out) + (eol if last_eol else "")


class Request:
    """A resolved sat_skymap request: numbers as the program reads them, and the model's view of each satellite."""

    def __init__(self, case, sats=None):
        self.case = case
        self.sats = case["sats"] if sats is None else sats
        self.mjd_text = gen.mjd_text(case["m5"])
        self.mjd = float(self.mjd_text)
        self.jd = model.JD0 + self.mjd
        self.dt = case.get("dt") or 1
        la, lo, h = case["site"]
        self.site_text = gen.site_text(case["site"])
        self.site = model.Site(la * 1e-5, lo * 1e-5, h * 0.1)
        self.obs1 = self.site.pos(self.jd)
        self.obs2 = self.site.pos(self.jd + self.dt / 86400.0)
        self.hav = bool(case.get("H"))
        self.E = bool(case.get("E"))
        self.lmst = self.site.lmst(self.jd)
        self.gmst = model.gmst(self.jd)
        self.seen = []
        cache = {}
        for x in self.sats:
            k = id(x)
            if k not in cache:
                cache[k] = model.see(model.Prop(x), self.jd, self.dt, self.site, self.obs1, self.obs2)
            self.seen.append(cache[k])
        # centre
        c = case.get("centre")
        self.p_text = None
        self.at_sat = None
        if c is not None:
            if "sat" in c:
                o = self.seen[c["sat"] % len(self.seen)]
                if o.status == "ok":
                    ra, dec = (o.ra2, o.dec2) if c.get("second") else (o.ra1, o.dec1)
                    ra, dec = model.offset(ra, dec, radians(c["sep"] * 1e-4), radians(c["pa"]))
                    self.at_sat = c["sat"] % len(self.seen)
                else:
                    ra, dec = 1.0, 0.5
                q = (int(round(degrees(ra) * 1e4)) % 3600000, int(round(degrees(dec) * 1e4)))
            else:
                q = (c["ra"], c["dec"])
            self.p_text = "%s,%s" % (gen.dec5(q[0], 4), gen.dec5(q[1], 4))
        single = case.get("s") is not None or case.get("i") is not None
        self.zenith = c is None or self.E or single
        if self.zenith:
            self.ra, self.dec = radians(self.lmst * 15), radians(la * 1e-5)
            self.ra_deg, self.dec_deg = self.lmst * 15, la * 1e-5
        else:
            self.ra_deg, self.dec_deg = q[0] * 1e-4, q[1] * 1e-4
            self.ra, self.dec = radians(self.ra_deg), radians(self.dec_deg)
        # radius: in 1e-4 degree, or relative to the separation of the satellite the centre is near
        r = case.get("rad")
        if isinstance(r, dict):
            v = 20.0
            if self.seen:
                o = self.seen[r["of"] % len(self.seen)]
                if o.status == "ok":
                    sp = self.sep_of(o)
                    v = max(0.0, (max(sp) if r.get("far") else min(sp)) + r["delta"] * 1e-4)
            r = int(round(v * 1e4))
        self.rad = 20.0 if r is None else r * 1e-4
        self.rad_text = None if r is None else gen.dec5(r, 4)
        self.sunvec = None

    def sep_of(self, o):
        """model separations from the target at both epochs, with the request's formula"""
        if self.E:
            la, lo, _, _ = model.geodetic(o.p1, self.gmst)
            f = model.sep if self.hav else model.plane_sep
            return (f(radians(self.site.lon), radians(self.site.lat), radians(lo), radians(la)),)
        f = model.sep if self.hav else model.plane_sep
        return f(self.ra, self.dec, o.ra1, o.dec1), f(self.ra, self.dec, o.ra2, o.dec2)

    def sep_tol(self, o):
        if self.E:
            la = model.geodetic(o.p1, self.gmst)[0]
            a = degrees(o.e1 / 6400) + 1e-6
            return (a if self.hav else a / max(1e-6, cos(radians(la))),)
        if self.hav:
            return o.a1, o.a2
        return o.a1 / max(1e-7, cos(o.dec1)), o.a2 / max(1e-7, cos(o.dec2))

    def in_region(self, o):
        sp, tl = self.sep_of(o), self.sep_tol(o)
        r = [bound(a, self.rad, b + 1e-4) for a, b in zip(sp, tl)]
        return OR(*r)

    def alt(self, o):
        return model.geodetic(o.p1, self.gmst)[2]

    def lit(self, o):
        """sunlit at the reported epoch; the program may mean either end of the interval"""
        if self.sunvec is None:
            self.sunvec = model.vec(*model.sun(self.jd))
        a = model.sunlit(o.p1, self.sunvec)
        b = model.sunlit(o.p2, self.sunvec)
        return MAYBE if a is None or b is None or a != b else YES if a else NO

    # ---- command line
    def args(self, fname="cat.tle", extra=(), drop=()):
        c = self.case
        a = [fname, "-l" + self.site_text, "-j" + self.mjd_text]
        if self.p_text is not None:
            a.append("-p" + self.p_text)
        if self.rad_text is not None:
            a.append("-r" + self.rad_text)
        if c.get("dt"):
            a.append("-t%d" % c["dt"])
        if self.hav:
            a.append("-H")
        for k in "EGIV":
            if c.get(k) and k not in drop:
                a.append("-" + k)
        if c.get("alt") and "a" not in drop:
            a.append("-a%s,%s" % (gen.dec5(c["alt"][0], 1), gen.dec5(c["alt"][1], 1)))
        if c.get("n") is not None and "n" not in drop:
            a.append("-n%d" % c["n"])
        if c.get("s") is not None:
            a.append("-s%d" % c["s"])
        if c.get("i") is not None:
            a.append("-i" + c["i"])
        if c.get("S") is not None:
            a.append("-S" + c["S"])
        return a + list(extra)

    # ---- who is listed
    def candidates(self):
        """[(index, certainty)] in order; duplicates by catalogue number text already removed"""
        c = self.case
        out, seen = [], set()
        single = c.get("s") is not None or c.get("i") is not None
        for k, x in enumerate(self.sats):
            nt = x.get("nt") or model.norad_text(x["norad"])
            if c.get("s") is not None:
                if x["norad"] != c["s"]:
                    continue
            elif c.get("i") is not None:
                if model.full_desig(x) != c["i"] or c["i"] == "none":
                    continue
            elif c.get("S") is not None:
                if not own_name(x).startswith(cli.b(c["S"])[:23]):
                    continue
            if nt in seen:
                continue
            seen.add(nt)
            o = self.seen[k]
            if o.status == "none":
                if single:
                    break
                continue
            if o.status == "avoid":
                out.append((k, MAYBE))
                if single:
                    break
                continue
            v = YES
            if c.get("alt") and not single:
                lo, hi = sorted(t * 0.1 for t in c["alt"])
                h = self.alt(o)
                v = AND(v, bound(lo, h, o.e1 + 0.006), bound(h, hi, o.e1 + 0.006))
            if not single and c.get("S") is None:
                v = AND(v, self.in_region(o))
            if c.get("V"):
                v = AND(v, self.lit(o))
            if v != NO:
                out.append((k, v))
            if single and v != NO:
                break
        return out

    def match(self, rows, limit=None):
        """rows: satellites of the answer.  Pairs them with candidates; raises when the list is not a possible one."""
        cand = self.candidates()
        pairs, j = [], 0
        n = len(rows)
        full = limit is not None and limit > 0 and n >= limit
        if full and n > limit:
            raise Violation("%d satellites listed, at most %d asked for" % (n, limit))
        for r in rows:
            while j < len(cand) and self.sats[cand[j][0]]["norad"] != r["norad_n"]:
                if cand[j][1] == YES:
                    raise Violation(self.why(cand[j][0], "missing or out of order (found %d instead)" % r["norad_n"]))
                j += 1
            if j == len(cand):
                ks = [k for k, x in enumerate(self.sats) if x["norad"] == r["norad_n"]]
                raise Violation(self.why(ks[0], "listed but should not be (or twice, or out of order)") if ks else "satellite %d listed, which is not in the file" % r["norad_n"])
            pairs.append((r, cand[j][0]))
            j += 1
        if not full:
            for k, v in cand[j:]:
                if v == YES:
                    raise Violation(self.why(k, "missing"))
        return pairs

    def why(self, k, what):
        x, o = self.sats[k], self.seen[k]
        t = "satellite %d (%r, entry %d) %s" % (x["norad"], x["name"], k, what)
        if o.status == "ok":
            t += ": model RA/Dec %.4f %.4f, then %.4f %.4f, separations %s (target %.4f %.4f, radius %.4f), altitude %.2f, sunlit %s" % (
                degrees(o.ra1), degrees(o.dec1), degrees(o.ra2), degrees(o.dec2), " ".join("%.4f" % v for v in self.sep_of(o)), self.ra_deg, self.dec_deg, self.rad, self.alt(o), {1: "yes", 0: "no", -1: "edge"}[self.lit(o)])
        else:
            t += ": model position: " + o.status
        return t + "; request: sat_skymap " + " ".join(self.args())


def write_cat(scratch, req_or_sats, name="cat.tle", **kw):
    sats = req_or_sats.sats if isinstance(req_or_sats, Request) else req_or_sats
    cli.write(os.path.join(scratch, name), catalogue(sats, **kw))


def listed(j):
    return j.get("satellites", [])


def close(what, got, want, tol, ctx=""):
    if not (abs(got - want) <= tol):
        raise Violation("%s %r, expected %.6f (tolerance %.2g)%s" % (what, got, want, tol, ctx))


def dir_close(what, ra, dec, wra, wdec, tol, ctx=""):
    """degrees, degrees, radians, radians, degrees"""
    d = model.sep(radians(ra), radians(dec), wra, wdec)
    if not d <= tol:
        raise Violation("%s (%.4f, %.4f) is %.5f degrees from the expected (%.4f, %.4f), tolerance %.5f%s" % (what, ra, dec, d, degrees(wra), degrees(wdec), tol, ctx))


def row_by_norad(q, j):
    """pairs (satellite of the answer, index in the catalogue), without judging membership"""
    first = {}
    for k, x in enumerate(q.sats):
        first.setdefault(x["norad"], k)
    out = []
    for r in listed(j):
        if r["norad_n"] not in first:
            raise Violation("satellite %r listed, which is not in the file" % (r["norad_n"],))
        out.append((r, first[r["norad_n"]]))
    return out


def check_identity(q, r, k):
    x = q.sats[k]
    want = s(own_name(x))
    if r["name"] != want:
        raise Violation("name %r, the line above the elements is %s" % (r["name"], "none" if x.get("noname") else repr(x["name"])))
    if r["intl_desig"] != model.full_desig(x):
        raise Violation("intl_desig %r, elements have %r" % (r["intl_desig"], x["desig"]))


def check_data(q, r, k, rec=None):
    """RA, Dec, RA, Dec, Distance, Separation, PA, Speed, (sunlit), HPXID of a listed satellite"""
    o, x, d = q.seen[k], q.sats[k], r["data"]
    ctx = "; satellite %d %r of: sat_skymap %s" % (x["norad"], x["name"], " ".join(q.args()))
    if len(d) != 10:
        raise Violation("%d values in data%s" % (len(d), ctx))
    for i, (lo, hi) in enumerate(((0, 360), (-90, 90), (0, 360), (-90, 90), (0, 1e9))):
        if not lo <= d[i] <= hi:
            raise Violation("data[%d] = %r out of range%s" % (i, d[i], ctx))
    if q.hav and not 0 <= d[5] <= 180 or d[5] < 0 or not (0 <= d[6] < 360 and d[6] == int(d[6])) or d[7] < 0 or d[8] not in (0, 1):
        raise Violation("Separation, PA, Speed or sunlit flag out of range: %r%s" % (d, ctx))
    if o.status != "ok":
        return False
    P4 = 0.8e-4
    dir_close("position at the start epoch", d[0], d[1], o.ra1, o.dec1, o.a1 + P4, ctx)
    dir_close("position at the second epoch", d[2], d[3], o.ra2, o.dec2, o.a2 + P4, ctx)
    close("Distance", d[4], o.d1, o.e1 + 0.0055, ctx)
    sp, tl = q.sep_of(o)[0], q.sep_tol(o)[0]
    close("Separation", d[5], sp, tl + 0.6e-4 + (1e-4 if sp > 179.99 or sp < 0.01 else 0), ctx)
    # motion
    rel = (max(o.e1, o.e2) * 0.02 + 0.0006 + o.cache) if q.dt < 900 else o.e1 + o.e2
    move = model.sep(o.ra1, o.dec1, o.ra2, o.dec2)
    dtol = degrees(rel / max(1.0, min(o.d1, o.d2))) * max(model.magnify(o.date1[1], o.dec1), model.magnify(o.date2[1], o.dec2)) + (1e-6 if move < 179.9 else 1e-3)
    close("Speed", d[7], move * 60 / q.dt, dtol * 60 / q.dt + 0.00055, ctx)
    dra = math.remainder(o.ra2 - o.ra1, model.TWOPI)
    planar = degrees(math.hypot(dra * cos(o.dec1), o.dec2 - o.dec1))
    pa1 = degrees(math.atan2(dra * cos(o.dec1), o.dec2 - o.dec1)) % 360
    m = min(move, planar)
    ptol = degrees(dtol * (1 if cos(o.dec1) > 0.02 else 1e9) / m) if m > 1e-9 else 360
    # the direction of a long motion depends on how it is drawn; the plane formula is the documented one
    half = abs(dra) > math.pi - 1e-9 - radians(o.a1 / max(1e-9, cos(o.dec1)) + o.a2 / max(1e-9, cos(o.dec2)))  # half a turn: either way round
    if ptol < 20 and not half:
        # printed truncated to whole degrees
        e = math.remainder(d[6] + 0.5 - pa1, 360)
        if abs(e) > 0.5 + ptol + 1e-6:
            y = math.sin(dra) * cos(o.dec2)
            xx = cos(o.dec1) * math.sin(o.dec2) - math.sin(o.dec1) * cos(o.dec2) * cos(dra)
            pa2 = degrees(math.atan2(y, xx)) % 360
            lo = min(e, math.remainder(d[6] + 0.5 - pa2, 360), key=abs)
            if abs(lo) > 0.5 + ptol + 1e-6 + 0.5:
                raise Violation("PA %d, motion is towards %.3f (or %.3f along the great circle)%s" % (d[6], pa1, pa2, ctx))
    pix = model.pix_around(o.ra1, o.dec1, radians(o.a1) + 1e-9)
    if d[9] not in pix:
        raise Violation("HPXID_8 %r, the position lies in %s%s" % (d[9], sorted(pix), ctx))
    if rec is not None:
        rec.label(move > 5 and "moves over 5 degrees", abs(dra) * 57.3 > 180 - 1e-9 and "half a turn", abs(o.ra1 - o.ra2) > math.pi and "crosses RA 0",
                  abs(o.dec1) > 1.5 and "within 4 degrees of a pole", sp > 120 and "separation over 120", ptol < 1 and "PA decided")
    return True


def check_geoloc(q, r, k):
    o, x, g = q.seen[k], q.sats[k], r["geoloc"]
    ctx = "; satellite %d %r of: sat_skymap %s" % (x["norad"], x["name"], " ".join(q.args()))
    if not (-90 <= g["lat"] <= 90 and -180 <= g["lon"] <= 180 and -360 <= g["theta"] <= 360):
        raise Violation("geodetic location out of range: %r%s" % (g, ctx))
    if o.status != "ok":
        return False
    la, lo, al, th = model.geodetic(o.p1, q.gmst)
    a = degrees(o.e1 / math.dist(o.p1, (0, 0, 0))) * 1.01
    close("latitude", g["lat"], la, a + 0.00055, ctx)
    cl = max(1e-9, cos(radians(la)))
    close("longitude", math.remainder(g["lon"] - lo, 360), 0.0, a / cl + 0.00055 + 1e-6, ctx + " (longitude %r, expected %.4f)" % (g["lon"], lo))
    close("theta", math.remainder(g["theta"] - th, 360), 0.0, a / cl + 0.00055, ctx + " (theta %r, expected %.4f)" % (g["theta"], th))
    close("altitude", g["alt"], al, o.e1 + 0.0055 + 1e-8 / cl, ctx)
    return True
