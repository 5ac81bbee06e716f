from vis import *
import vis


def seconds(date):
    return (datetime.datetime.strptime(date, "%Y-%m-%dT%H:%M:%S") - MJD0).total_seconds()


def instant(w, S, lab, t, k, rec, scratch, cross):
    """all the data of start, end, mid or max"""
    g, u, s = S["geoloc_" + lab], S["sun_" + lab], S["sat_" + lab]
    ctx = " at %s (MJD %.6f): %s" % (lab, t - model.JD0, w.cmd)
    sky.close("MJD", s["MJD"], t - model.JD0, 0.51e-5 + 1e-9 * (k + 1), ctx)
    sky.close("Date (s)", seconds(s["Date"]), (t - model.JD0) * 86400, 0.51 + 3e-5 * (k + 1), ctx + " " + s["Date"])
    o = w.at(t, k)
    if o.status != "ok":
        return False
    P = o.e + 1e-4
    a = degrees(P / o.d)
    ra, dec = model.to_j2000(t, o.ra, o.dec)
    aj = a * model.magnify(o.dec, dec)
    if not (0 <= s["ra"] <= 360 and -90 <= s["dec"] <= 90 and 0 <= s["az"] <= 360 and -90 <= s["alt"] <= 90 and 0 <= s["Separation"] <= 180 and s["Distance"] > 0):
        raise Violation("out of range: %s%s" % (s, ctx))
    sky.dir_close("RA, Dec", s["ra"], s["dec"], ra, dec, aj + 0.8e-4 + 1e-6, ctx)
    sky.close("Distance", s["Distance"], o.d, P + 0.0055, ctx)
    sky.close("Separation", s["Separation"], o.sep, a + 0.6e-4 + (1e-4 if o.sep < 0.01 or o.sep > 179.99 else 0), ctx)
    sky.close("alt + Separation", s["alt"] + s["Separation"], 90, 1.1e-4 + (1e-4 if o.sep < 0.01 or o.sep > 179.99 else 0), ctx)
    alt, az, q, ca = model.altaz(o.dec, o.lmst - o.ra, radians(w.site.lat))
    sky.close("alt", s["alt"], alt, a + 0.6e-4 + (1e-4 if ca < 1e-3 else 0), ctx)
    if ca > 1e-3:
        sky.close("az", math.remainder(s["az"] - az, 360), 0, (a + 1e-6) / ca + 0.6e-4, ctx + " (az %r, expected %.4f)" % (s["az"], az))
    motion(w, s, o, t, k, P, rec, ctx)
    # geodetic location
    la, lo, al, th = model.geodetic(o.p, model.gmst(t))
    b = degrees(P / math.dist(o.p, (0, 0, 0))) * 1.01
    cl = max(1e-9, cos(radians(la)))
    sky.close("latitude", g["lat"], la, b + 0.00055, ctx)
    sky.close("longitude", math.remainder(g["lon"] - lo, 360), 0, b / cl + 0.00055 + 1e-6 + 0.005 * 3e-5 * (k + 1), ctx)
    sky.close("theta", math.remainder(g["theta"] - th, 360), 0, b / cl + 0.00055, ctx)
    sky.close("geodetic altitude", g["alt"], al, P + 0.0055 + 1e-8 / cl, ctx)
    if not (-180 <= g["lon"] <= 180):
        raise Violation("longitude %r%s" % (g["lon"], ctx))
    sun(w, u, t, ctx)
    if cross and w.x["oc"] != "edge":  # (strong drag: the velocity is not the rate of change of the place)
        a2 = ["cat.tle", "-l" + w.site_text, "-j%.5f" % s["MJD"], "-s%d" % w.x["norad"], "-H"]
        r = cli.run("sat_skymap", a2, scratch)
        if r.rc == 0 and sky.listed(r.json):
            m = sky.listed(r.json)[0]
            rate = degrees(math.dist(o.v, (0, 0, 0)) / 60 / o.d) + 0.005
            tol = (rate * 0.6 + 3e-4) * model.magnify(o.dec, dec)
            if tol < 20:
                sky.dir_close("sat_visibility's RA, Dec against sat_skymap's", s["ra"], s["dec"], radians(m["data"][0]), radians(m["data"][1]), tol, ctx)
                sky.close("Distance of sat_visibility against sat_skymap's", s["Distance"], m["data"][4], math.dist(o.v, (0, 0, 0)) / 60 * 0.6 + 0.6, ctx)
                rec.label("compared with sat_skymap")
    return True


def motion(w, s, o, t, k, P, rec, ctx):
    """PA and Speed: of the motion over the step that follows"""
    if not (0 <= s["PA"] < 360 and s["PA"] == int(s["PA"]) and s["Speed"] >= 0):
        raise Violation("PA or Speed out of range: %s%s" % (s, ctx))
    o2 = w.at(t + w.dt / 86400.0, k)
    if o2.status != "ok" or w.x["oc"] == "edge":
        return
    move = model.sep(o.ra, o.dec, o2.ra, o2.dec)
    dm = min(o.d, o2.d)
    rel = P * 0.02 + 0.0012 + w.prop.cache_tol(w.dt, (t - w.prop.epoch) * 1440) if w.dt < 900 else 2 * P
    dtol = degrees(rel / dm) + 2 * move * P / dm + (1e-6 if move < 179.9 else 1e-3)
    sky.close("Speed", s["Speed"], move * 60 / w.dt, dtol * 60 / w.dt + 0.00055, ctx)
    cd = min(cos(o.dec), cos(o2.dec))
    if cd < 0.02 or move > 170:
        return
    ptol = degrees(dtol / max(move, 1e-9)) + 2 * degrees(P / dm / cd)
    if ptol > 20:
        return
    ways = []
    for a, b in (((o.ra, o.dec), (o2.ra, o2.dec)), (model.to_j2000(t, o.ra, o.dec), model.to_j2000(t, o2.ra, o2.dec))):
        dra = math.remainder(b[0] - a[0], model.TWOPI)
        ways.append(degrees(math.atan2(dra * cos(a[1]), b[1] - a[1])))
        ways.append(degrees(math.atan2(math.sin(dra) * cos(b[1]), cos(a[1]) * math.sin(b[1]) - math.sin(a[1]) * cos(b[1]) * cos(dra))))
        if abs(dra) > 3.1:  # half a turn: either way round
            return
    if min(abs(math.remainder(s["PA"] + 0.5 - x, 360)) for x in ways) > 0.5 + ptol + 1e-6:
        raise Violation("PA %d, motion is towards %.3f%s" % (s["PA"], ways[0] % 360, ctx))
    rec.label("PA decided" if ptol < 1 else "", "moves over a degree a step" if move > 1 else "")


def sun(w, u, t, ctx):
    ra, dec = model.sun(t)
    sky.dir_close("Sun", u["ra"], u["dec"], ra, dec, 0.025, ctx)
    # the rest from the printed place
    ra, dec = radians(u["ra"]), radians(u["dec"])
    lm = radians(w.site.lmst(t) * 15)
    alt, az, q, ca = model.altaz(dec, lm - ra, radians(w.site.lat))
    E = 0.0017
    sky.close("Sun alt", u["alt"], alt, E, ctx)
    if ca > 0.005:
        sky.close("Sun az", math.remainder(u["az"] - az, 360), 0, E / ca, ctx + " (%r, expected %.4f)" % (u["az"], az))
        cl = abs(cos(radians(w.site.lat)))
        if cl > 1e-3:
            sky.close("Sun parang", math.remainder(u["parang"] - q, 360), 0, 2 * E / ca + 1e-3, ctx + " (%r, expected %.4f)" % (u["parang"], q))
    sky.close("Sun separation from the zenith", u["separation_deg"], 90 - alt, E, ctx)
    sky.close("Sun lon", math.remainder(u["lon"] - u["ra"] + degrees(model.gmst(t)), 360), 0, E, ctx)
    if not (-180 <= u["lon"] <= 180 and 0 <= u["az"] <= 360):
        raise Violation("Sun out of range: %s%s" % (u, ctx))


def check(case, rec, scratch):
    w, j = vis.run(case, scratch, rec)
    p = j["input_params"]
    for k, got, want, tol in (("lat", p["location"]["lat"], w.site.lat, 0.51e-4), ("lon", p["location"]["lon"], w.site.lon, 0.51e-4), ("height", p["location"]["alt"], w.site.h, 0.051),
                              ("radius", p["region"]["radius"], w.rad, 0.51e-4), ("range start", p["mjd_range"][0], float(w.t0), 1e-9), ("range end", p["mjd_range"][1], float(w.t1), 1e-9), ("step", p["delta_time_s"], w.dt, 0)):
        sky.close(k, got, want, tol, ": " + w.cmd)
    for k in (0, 1):
        sky.close("date of the range (s)", seconds(p["date_utc_range"][k]), float((w.t0, w.t1)[k]) * 86400, 0.51, ": " + w.cmd)
    if p["tle_file"] != "cat.tle":
        raise Violation("tle_file %r" % p["tle_file"])
    if "satellite" not in j:
        sun(w, j["sun"], w.jd0, " at the start of the range: " + w.cmd)
        return
    S = j["satellite"]
    if S["name"] != sky.s(sky.own_name(w.x)) or S["intl_desig"] != model.full_desig(w.x) or S["norad_n"] != w.x["norad"]:
        raise Violation("%r %r %r reported: %s" % (S["name"], S["intl_desig"], S["norad_n"], w.cmd))
    # the instants: samples for start, end and max
    ts = {}
    every = list(range(len(w.times)))
    for lab in ("start", "end", "max"):
        k = index(w, S["sat_" + lab]["MJD"], every)
        if k is None or not w.sure:
            if w.sure:
                raise Violation("%s at MJD %.5f is no sample of the range: %s" % (lab, S["sat_" + lab]["MJD"], w.cmd))
            rec.label("not judged: sunset next to a step")
            return
        ts[lab] = (w.times[k], k)
    ts["mid"] = ((ts["start"][0] + ts["end"][0]) / 2, ts["end"][1])
    for i, lab in enumerate(("start", "end", "mid", "max")):
        if instant(w, S, lab, ts[lab][0], ts[lab][1], rec, scratch, case["m5"] % 4 == i):
            rec.nontrivial()
    rec.label("across midnight" if int(ts["start"][0] + .5) != int(ts["end"][0] + .5) else "", "one sample" if ts["start"] == ts["end"] else "", "low" if S["sat_max"]["alt"] < 0 else "high" if S["sat_max"]["alt"] > 80 else "")


PARTS = [GenPart("instants", vis.case, check, 40000, 500000, prepare=cli.prepare)]
RULE = RULE + "Non-trivial: all data of at least one of the four instants were compared with the model."
ASSUMPTIONS = ASSUME + ["with -N, cases in which the Sun is within 0.02 degree of the horizon at one of the steps are not judged", "PA and Speed are those of the motion over the step that follows the instant; the 'region' block of sat_visibility is not judged"]
