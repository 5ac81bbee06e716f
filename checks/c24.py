from vis import *
import vis


def check(case, rec, scratch):
    w, j = vis.run(case, scratch, rec)
    loc = locate(w, j)
    n = len(w.times)
    if "satellite" not in j:
        # nothing to be seen: the Sun at the start of the range
        s = j["sun"]
        ra, dec = model.sun(w.jd0)
        sky.dir_close("Sun", s["ra"], s["dec"], ra, dec, 0.025, ": " + w.cmd)
        z = model.sep(radians(w.site.lmst(w.jd0) * 15), radians(w.site.lat), ra, dec)
        sky.close("distance of the Sun from the zenith", s["separation_deg"], z, 0.025, ": " + w.cmd)
        sky.close("altitude of the Sun", s["alt"], 90 - z, 0.025, ": " + w.cmd)
        v = [w.sample(k) for k in range(n)]
        rec.nontrivial(n > 0 and all(o.vis == NO for o in v))
        rec.label("no sample in the range" if not n else "", "never within the radius" if n and all(o.status == "ok" and o.inside == NO for o in v) else "", "within the radius but never sunlit" if any(o.status == "ok" and o.inside == YES and o.lit == NO for o in v) and all(o.vis == NO for o in v) else "")
        return
    if loc is None:
        rec.label("not judged: sunset next to a step")
        return
    rec.nontrivial()
    k0, k1, km = loc
    S = j["satellite"]
    # the duration and the middle
    secs = (w.times[k1] - w.times[k0]) * 86400
    sky.close("duration (minutes)", j["sunlit_duration_minutes"], secs / 60, 0.0051 + 1e-6 * secs, ": " + w.cmd)
    mid = (w.times[k0] + w.times[k1]) / 2
    sky.close("MJD of the middle", S["sat_mid"]["MJD"], mid - model.JD0, 0.56e-5, ": " + w.cmd)
    # the highest place
    o = w.sample(km)
    best = [w.sample(k) for k in range(k0, k1 + 1)]
    sure = [t for t in best if t.vis == YES]
    if o.vis == NO:
        raise Violation("max at MJD %.5f, when the satellite is not visible: %s" % (S["sat_max"]["MJD"], w.cmd))
    if sure and o.status == "ok":
        b = min(sure, key=lambda t: t.sep)
        if o.sep > b.sep + o.a + b.a + 1e-6:
            raise Violation("max at MJD %.5f, %.4f from the zenith, but at MJD %.5f it is %.4f away: %s" % (S["sat_max"]["MJD"], o.sep, b.t - model.JD0, b.sep, w.cmd))
    e = w.sample(k1)
    rec.label("starts later than the range" if k0 > 0 else "starts with the range", "one sample only" if k0 == k1 else "", "highest inside" if k0 < km < k1 else "",
              "to the end of the range" if k1 == n - 1 and e.vis != NO else "leaves the radius" if e.status == "ok" and e.inside == NO else "enters the shadow" if e.status == "ok" and e.lit == NO else "ends otherwise")
    rec.label(w.skipped and "daytime skipped")
    if k0 > 0:
        b = w.sample(k0 - 1)
        rec.label("comes out of the shadow" if b.status == "ok" and b.inside == YES else "enters the radius")
    if case["N"]:
        ra, dec = model.sun(w.times[k0])
        # after the Sun has set for the first time in the range
        if w.skipped == 0 and model.altaz(dec, radians(w.site.lmst(w.jd0) * 15) - ra, radians(w.site.lat))[0] > 0.5 and k0 == 0:
            raise Violation("-N, and the window starts with the Sun up: %s" % w.cmd)


PARTS = [GenPart("window", vis.case, check, 40000, 500000, prepare=cli.prepare)]
RULE = RULE + "Non-trivial: the reported window was located among the model's samples, or the model has no visible sample at all."
ASSUMPTIONS = ASSUME + ["with -N, cases in which the Sun is within 0.02 degree of the horizon at one of the steps are not judged"]
