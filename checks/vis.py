"""Model of sat_visibility: what each sample is, which windows are possible, what is true at an instant."""
from clic import *
import datetime

MJD0 = datetime.datetime(1858, 11, 17)


class Window:
    def __init__(self, case):
        self.case = case
        self.x = case["sats"][case["target"]]
        self.prop = model.Prop(self.x)
        la, lo, h = case["site"]
        self.site = model.Site(la * 1e-5, lo * 1e-5, h * 0.1)
        self.site_text = gen.site_text(case["site"])
        self.t0, self.t1 = gen.mjd_text(case["m5"]), gen.mjd_text(case["m5"] + case["len"])
        self.jd0, self.jd1 = model.JD0 + float(self.t0), model.JD0 + float(self.t1)
        self.dt = case["dt"] or 3
        self.rad = 90.0 if case["rad"] is None else case["rad"] * 1e-4
        self.sure = True
        t, n = self.jd0, 0
        if case["N"]:
            while True:
                ra, dec = model.sun(t)
                a = model.altaz(dec, radians(self.site.lmst(t) * 15) - ra, radians(self.site.lat))[0]
                if abs(a) < 0.02 or abs(t - self.jd1) < 1e-8:
                    self.sure = False  # sunset next to a step
                if a < 0 or t > self.jd1:
                    break
                t += 0.0007
                n += 1
        self.skipped = n
        self.times = []
        self.open_end = False
        while t <= self.jd1 + 1e-8:
            if t > self.jd1 - 1e-8 and (self.times or n):
                self.open_end = True  # rounding decides whether this one counts
            self.times.append(t)
            t += self.dt / 86400.0
            if len(self.times) > 20000:
                break
        self.obs = [None] * len(self.times)

    def args(self, fname="cat.tle"):
        c = self.case
        a = [fname, "-l" + self.site_text, "-j%s,%s" % (self.t0, self.t1)]
        a.append("-i" + model.full_desig(self.x) if c["by_i"] else "-s%d" % self.x["norad"])
        if c["dt"]:
            a.append("-t%d" % c["dt"])
        if c["rad"] is not None:
            a.append("-r" + gen.dec5(c["rad"], 4))
        if c["N"]:
            a.append("-N")
        return a

    def at(self, t, k=0):
        """satellite, Sun and site at an instant"""
        o = sky.model.Seen()
        o.t = t
        o.status, p, v, e = self.prop.at((t - self.prop.epoch) * 1440.0)
        if o.status != "ok":
            return o
        o.p, o.v = p, v
        o.e = e + 0.001 + 9 * 2.5e-5 * (k + 2)  # sample times are good to their rounding
        o.pos = self.site.pos(t)
        o.ra, o.dec, o.d = model.radec(p, o.pos)
        if o.d < 20:
            o.status = "avoid"
            return o
        o.lmst = radians(self.site.lmst(t) * 15)
        o.sep = model.sep(o.lmst, radians(self.site.lat), o.ra, o.dec)
        o.a = degrees(o.e / o.d)
        return o

    def sample(self, k):
        if self.obs[k] is None:
            o = self.obs[k] = self.at(self.times[k], k)
            if o.status == "none":
                o.vis = NO
            elif o.status == "avoid":
                o.vis = MAYBE
            else:
                o.inside = sky.bound(o.sep, self.rad, o.a + 1e-6)
                o.lit = NO
                if o.inside != NO:
                    l = model.sunlit(o.p, model.vec(*model.sun(o.t)))
                    o.lit = MAYBE if l is None else YES if l else NO
                o.vis = AND(o.inside, o.lit)
        return self.obs[k]

    def starts(self):
        """indices at which the window may start, and whether it has to"""
        out = []
        for k in range(len(self.times)):
            v = self.sample(k).vis
            last = k == len(self.times) - 1
            if v != NO:
                out.append(k)
            if v == YES and not (last and self.open_end):
                return out, True
        return out, False

    def ends(self, k0):
        """indices at which a window from k0 may end"""
        out, n = [], len(self.times)
        for k in range(k0 + 1, n):
            o = self.sample(k)
            if o.status == "none":
                out += [k - 1, k]
            elif o.vis != YES:
                out.append(k)
                if o.status == "avoid":
                    out.append(k - 1)
            if o.vis == NO:
                return out
        out.append(n - 1)
        if self.open_end and n - 2 >= k0:
            out.append(n - 2)
        return out


def run(case, scratch, rec):
    sky.write_cat(scratch, case["sats"], **(case.get("lay") or {}))
    w = Window(case)
    a = w.args()
    r = cli.run("sat_visibility", a, scratch)
    w.cmd = "sat_visibility " + " ".join(a)
    if r.rc != 0 or r.json["status"] != 0 or r.json["errmsg"]:
        raise Violation("exit %d, status %s, %r: %s" % (r.rc, r.json["status"], r.json["errmsg"], w.cmd))
    j = r.json
    if ("satellite" in j) == ("sun" in j) or ("satellite" in j) != ("sunlit_duration_minutes" in j) or ("satellite" in j) != ("sat_fields" in j) or j["n_sats_found"] != int("satellite" in j):
        raise Violation("members %s, n_sats_found %d: %s" % (sorted(j), j["n_sats_found"], w.cmd))
    rec.label("orbit " + w.x["oc"], "-N" if case["N"] else "", "window reported" if "satellite" in j else "no window")
    return w, j


def index(w, mjd, ks, tol=0.56e-5):
    """which of the samples ks is meant by a printed MJD"""
    best = min(ks, key=lambda k: abs(w.times[k] - model.JD0 - mjd), default=None)
    return best if best is not None and abs(w.times[best] - model.JD0 - mjd) <= tol + 3e-10 * best else None


def locate(w, j):
    """start, end and max indices of the reported window; raises when it is not a possible one; None when this case is not to be judged"""
    starts, must = w.starts()
    if "satellite" not in j:
        if must and w.sure:
            k = starts[-1]
            o = w.sample(k)
            raise Violation("no window, but at sample %d (MJD %.5f) the satellite is sunlit, %.4f degrees from the zenith: %s" % (k, o.t - model.JD0, o.sep, w.cmd))
        return None
    S = j["satellite"]
    if not w.sure:
        return None
    k0 = index(w, S["sat_start"]["MJD"], starts)
    if k0 is None:
        raise Violation("window starts at MJD %.5f, expected %s: %s" % (S["sat_start"]["MJD"], ["%.5f" % (w.times[k] - model.JD0) for k in starts[-3:]] or "none", w.cmd))
    ends = w.ends(k0)
    k1 = index(w, S["sat_end"]["MJD"], ends)
    if k1 is None:
        raise Violation("window from MJD %.5f ends at %.5f, expected %s: %s" % (S["sat_start"]["MJD"], S["sat_end"]["MJD"], ["%.5f" % (w.times[k] - model.JD0) for k in ends[-3:]], w.cmd))
    km = index(w, S["sat_max"]["MJD"], list(range(k0, k1 + 1)))
    if km is None:
        raise Violation("max at MJD %.5f, which is no sample of the window %.5f..%.5f: %s" % (S["sat_max"]["MJD"], S["sat_start"]["MJD"], S["sat_end"]["MJD"], w.cmd))
    return k0, k1, km


# ---------------------------------------------------------------- generator
def case(d):
    m5 = gen.when(d)
    mjd = m5 * 1e-5
    k = d.i(0, 19)
    if k == 0:
        x = gen.dead(d, mjd)
    elif k == 1:
        x = gen.hsat(d, mjd)
    else:
        x = gen.sat(d, mjd, classes=gen.CLASSES + ("leo", "leo", "leo", "leo"))
    dt = d.pick(None, 1, 5, 10, 30, 60, 120, 600) if d.flag() else d.i(1, 200)
    ed = gen.edge(d, mjd) if k == 2 and d.chance(3) else None
    if ed:  # loses or gains its position in the middle
        x, dt = ed[0], max(1, ed[1] // d.i(5, 200))
    step = dt or 3
    n = d.i(0, 20) if d.chance(4) else d.i(0, 150) if d.i(0, 3) else d.i(0, 700)
    ln = int(n * step / 0.864) + d.i(0, max(1, int(step / 0.864)))
    start = m5
    if ed:
        ln = int(ed[1] / 0.864) + 2
    N = d.chance(3)
    if N and not ed and d.flag():  # long enough for the Sun to set
        dt = step = d.i(60, 240)
        ln = int(d.i(100, 500) * step / 0.864)
    if d.i(0, 2) and not ed:
        gen.aim_shadow(d, x, m5)
        start = m5 - d.i(0, ln)
    if d.chance(20):
        ln = -d.i(0, 500) if d.i(0, 2) else 0
    site = gen.site(d)
    if d.i(0, 4):
        # below the satellite at some time of the range, give or take
        p = model.Prop(x)
        t = model.JD0 + (start + d.i(0, max(0, ln))) * 1e-5
        st, r, _, _ = p.at((t - p.epoch) * 1440)
        if st == "ok":
            la, lo, al, _ = model.geodetic(r, model.gmst(t))
            reach = degrees(math.acos(min(1, 6378 / max(6400, al + 6378)))) * 1.2
            f = lambda: (d.u() + d.u() - 1) * reach
            la = max(-90, min(90, la + f()))
            lo = lo + f() / max(0.1, cos(radians(la)))
            lo = (lo + 180) % 360 - 180
            site = [int(la * 1e5), int(lo * 1e5), site[2]]
    k = d.i(0, 5)
    rad = None if k == 0 else 900000 if k == 1 else d.i(0, 1800000) if k < 4 else d.i(600000, 950000) if k == 4 else d.pick(1800000, 100000, 850000, 800000)
    sats = [x] + [gen.sat(d, mjd, names=gen.plain_name) for _ in range(d.i(0, 2))]
    sats = gen.uniq(sats)
    tgt = d.i(0, len(sats) - 1)
    sats[0], sats[tgt] = sats[tgt], sats[0]
    ds = [model.full_desig(s) for s in sats]
    by_i = d.chance(4) and ds[tgt] != "none" and ds.index(ds[tgt]) == tgt
    return dict(m5=start, len=ln, dt=dt, site=site, sats=sats, target=tgt, by_i=by_i, rad=rad, N=N, lay=gen.layout(d, len(sats)) if d.chance(4) else None)
