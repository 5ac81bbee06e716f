"""What both programs print besides satellites: dates, sidereal times, the region and the Sun.  Used by C15-C18."""
from clic import *
import datetime

MJD0 = datetime.datetime(1858, 11, 17)


def date_of(text):
    """seconds since MJD 0 of a printed date"""
    if len(text) > 20 and text[19] == ".":  # as it was asked for
        return date_of(text[:19]) + float("0" + text[19:])
    if len(text) != 19:
        raise Violation("date %r" % text)
    return (datetime.datetime.strptime(text, "%Y-%m-%dT%H:%M:%S") - MJD0).total_seconds()


def date_text(sec):
    """whole seconds, or a fraction in milliseconds"""
    ms = int(round((sec - math.floor(sec)) * 1000))
    return (MJD0 + datetime.timedelta(seconds=math.floor(sec))).strftime("%Y-%m-%dT%H:%M:%S") + (".%03d" % ms).rstrip("0") * (ms > 0)


def ask(case, scratch):
    """runs the request; returns the command, the answer, and what the request says"""
    sky.write_cat(scratch, case["sats"])
    a = ["cat.tle", "-l" + gen.site_text(case["site"])]
    if case["vis"]:
        a.append("-s%d" % case["sats"][0]["norad"])
        secs = [case["sec"] + case.get("ms", 0) / 1000, case["sec"] + case["span"] + case.get("ms2", 0) / 1000]
        if case["by"] == "d":
            a.append("-d" + ",".join(date_text(s) for s in secs))
        else:
            a.append("-j%s,%s" % (case["mjd"], gen.mjd_text(int(round(float(case["mjd"]) * 1e5)) + case["span"])))
        prog = "sat_visibility"
    else:
        secs = [case["sec"] + case.get("ms", 0) / 1000]
        a.append("-d" + date_text(secs[0]) if case["by"] == "d" else "-j" + case["mjd"])
        if case["p"]:
            a.append("-p%s,%s" % (gen.dec5(case["p"][0], 4), gen.dec5(case["p"][1], 4)))
        for k in "EHIV":
            if case[k]:
                a.append("-" + k)
        if case["s"]:
            a.append("-s%d" % case["sats"][0]["norad"])
        prog = "sat_skymap"
    j = cli.ok(prog, a, scratch)
    return "%s %s" % (prog, " ".join(a)), j, secs, a


def used_mjds(case, j):
    """the instants the program works with: as given, or the calendar date to 1e-5 day"""
    p = j["input_params"]
    out = p["mjd_range"] if case["vis"] else [p["mjd"]]
    if case["by"] == "d":
        return out
    t = [float(case["mjd"])]
    if case["vis"]:
        t.append(float(gen.mjd_text(int(round(float(case["mjd"]) * 1e5)) + case["span"])))
    return t


def dates(case, rec, scratch):
    cmd, j, secs, a = ask(case, scratch)
    p = j["input_params"]
    mj = p["mjd_range"] if case["vis"] else [p["mjd"]]
    ds = p["date_utc_range"] if case["vis"] else [p["epoch_UTC"]]
    want = used_mjds(case, j)
    for k in range(len(mj)):
        s = date_of(ds[k])
        if case["by"] == "d":
            if ds[k] != date_text(secs[k]):
                raise Violation("date %s, asked for %s: %s" % (ds[k], date_text(secs[k]), cmd))
            sky.close("MJD of the date", mj[k], secs[k] / 86400, 0.506e-5, ": " + cmd)
        else:
            sky.close("MJD", mj[k], want[k], 0.501e-5, ": " + cmd)
            sky.close("seconds of the date", s, want[k] * 86400, 0.50005, ": " + cmd)
        rec.label("fractional seconds" if "." in ds[k] else "", "leap day" if ds[k][5:10] == "02-29" else "", "last second of a day" if ds[k].endswith("23:59:59") else "", "midnight" if ds[k].endswith("00:00:00") else "", "last day of a year" if ds[k][5:10] == "12-31" else "")
    rec.nontrivial()
    # the other spelling names the same instant
    b = list(a)
    i = [k for k, x in enumerate(b) if x[:2] in ("-d", "-j")][0]
    b[i] = ("-j" + ",".join("%.5f" % m for m in mj)) if case["by"] == "d" else "-d" + ",".join(ds)
    r = cli.ok(cmd.split()[0], b, scratch)["input_params"]
    mj2 = r["mjd_range"] if case["vis"] else [r["mjd"]]
    ds2 = r["date_utc_range"] if case["vis"] else [r["epoch_UTC"]]
    for k in range(len(mj)):
        sky.close("MJD given back", mj2[k], mj[k], 1.01e-5 if case["by"] == "j" else 0, ": " + cmd)
        if abs(date_of(ds2[k]) - date_of(ds[k])) > (1 if case["by"] == "d" else 0):
            raise Violation("date %s given back as %s: %s" % (ds[k], ds2[k], cmd))


def sidereal(case, rec, scratch):
    cmd, j, secs, a = ask(case, scratch)
    p = j["input_params"]
    jd = model.JD0 + used_mjds(case, j)[0]
    g = degrees(model.gmst(jd)) / 15
    site = model.Site(case["site"][0] * 1e-5, case["site"][1] * 1e-5, case["site"][2] * 0.1)
    R = p["region"]
    T = 1.4e-4 / 3.6 + 0.51e-4
    for k, v, w in (("gmst", p["gmst"], g), ("lmst", R["lmst"], site.lmst(jd))):
        if not 0 <= v <= 24:
            raise Violation("%s %r: %s" % (k, v, cmd))
        sky.close(k, (v - w + 12) % 24 - 12, 0, T, " (%r, expected %.5f): %s" % (v, w, cmd))
    sky.close("lmst - gmst - longitude", math.remainder((R["lmst"] - p["gmst"]) * 15 - site.lon, 360), 0, 1.51e-3, ": " + cmd)
    if case["vis"] or case["E"] or case["s"] or not case["p"]:
        sky.close("zenith RA", math.remainder(R["ra"] - 15 * site.lmst(jd), 360), 0, 15 * T, " (%r): %s" % (R["ra"], cmd))
        sky.close("zenith Dec", R["dec"], case["site"][0] * 1e-5, 0.51e-4, ": " + cmd)
        rec.label("zenith")
    rec.nontrivial()
    rec.label("before 2000" if jd < model.J2000 else "after 2000", "sidereal time near 0 h" if min(g, 24 - g) < 0.1 else "", "west" if case["site"][1] < 0 else "")


def horizon(case, rec, scratch):
    cmd, j, secs, a = ask(case, scratch)
    jd = model.JD0 + used_mjds(case, j)[0]
    site = model.Site(case["site"][0] * 1e-5, case["site"][1] * 1e-5, case["site"][2] * 0.1)
    lat = radians(site.lat)
    lm = radians(site.lmst(jd) * 15)
    R = j["input_params"]["region"]
    zen = case["vis"] or case["E"] or case["s"] or not case["p"]
    if zen:
        sky.close("altitude of the zenith", R["alt"], 90, 1.1e-4, ": " + cmd)
    else:
        ra, dec = radians(case["p"][0] * 1e-4), radians(case["p"][1] * 1e-4)
        place("region", R, lm - ra, dec, lat, 2e-6 if case["by"] == "j" else 1.5e-5, 0.51e-4, 0.51e-3, rec, cmd)
        rec.nontrivial()
    if "sun" in j:
        u = j["sun"]
        t = jd
        place("Sun", u, radians(site.lmst(t) * 15 - u["ra"]), radians(u["dec"]), lat, 0.0011, 0.51e-3, 0.51e-3, rec, cmd)
        rec.nontrivial()


def place(what, u, ha, dec, lat, e, pa, pq, rec, cmd):
    """az, alt, parang of a printed object: e degrees of doubt in its place, pa and pq of rounding"""
    alt, az, q, ca = model.altaz(dec, ha, lat)
    if not (0 <= u["az"] <= 360 and -90 <= u["alt"] <= 90 and -180 <= u["parang"] <= 180):
        raise Violation("%s out of range: %s: %s" % (what, u, cmd))
    sky.close(what + " altitude", u["alt"], alt, e + pa + (1e-4 if ca < 1e-3 else 0), ": " + cmd)
    if ca > 1e-3:
        sky.close(what + " azimuth", math.remainder(u["az"] - az, 360), 0, e / ca + pa, " (%r, expected %.4f): %s" % (u["az"], az, cmd))
        cd = cos(dec)
        if cos(lat) > 1e-4 and cd > 1e-3:
            sky.close(what + " parallactic angle", math.remainder(u["parang"] - q, 360), 0, 3 * e / min(ca, cd) + pq + 1e-4, " (%r, expected %.4f): %s" % (u["parang"], q, cmd))
    rec.label(what + (" above the horizon" if alt > 0 else " below the horizon"), what + " on the meridian" if min(abs(math.remainder(ha, model.TWOPI)), abs(math.remainder(ha - math.pi, model.TWOPI))) < 1e-3 else "",
              what + (" east" if math.sin(ha) < 0 else " west"), what + " within a degree of the zenith" if alt > 89 else "", what + " between zenith and pole" if alt > 0 and cos(math.radians(az)) > 0.99 else "", "site within a degree of a pole" if abs(lat) > 1.55 else "")


def sun(case, rec, scratch):
    cmd, j, secs, a = ask(case, scratch)
    if "sun" not in j:
        rec.label("satellite seen: Sun inside its entries")
        return
    u, jd = j["sun"], model.JD0 + used_mjds(case, j)[0]
    ra, dec, obl = model.sun_theory(jd)
    if not (0 <= u["ra"] <= 360 and -24 < u["dec"] < 24 and -180 <= u["lon"] <= 180 and 0 <= u["separation_deg"] <= 180):
        raise Violation("Sun out of range: %s: %s" % (u, cmd))
    sky.dir_close("Sun", u["ra"], u["dec"], ra, dec, 0.0155, ": " + cmd)
    x, y, z = model.vec(radians(u["ra"]), radians(u["dec"]))
    sky.close("the Sun's distance from the ecliptic", degrees(math.cos(obl) * z - math.sin(obl) * y), 0, 0.0055, " (%r): %s" % (u, cmd))
    g = degrees(model.gmst(jd))
    sky.close("longitude of the Sun", math.remainder(u["lon"] - u["ra"] + g, 360), 0, 1.1e-3 + 1e-6, " (%r): %s" % (u, cmd))
    site = model.Site(case["site"][0] * 1e-5, case["site"][1] * 1e-5, case["site"][2] * 0.1)
    if case["vis"] or case["E"] or case["s"] or not case["p"]:
        t = (radians(site.lmst(jd) * 15), radians(site.lat))
    else:
        t = (radians(case["p"][0] * 1e-4), radians(case["p"][1] * 1e-4))
    sep = model.sep(t[0], t[1], radians(u["ra"]), radians(u["dec"]))
    sky.close("Sun's separation from the target", u["separation_deg"], sep, 0.0014 + 1e-6, ": " + cmd)
    rec.nontrivial()
    rec.label("Sun near the vernal equinox" if min(u["ra"], 360 - u["ra"]) < 2 else "", "near a solstice" if abs(u["dec"]) > 23.3 else "", "target near the Sun" if sep < 1 else "target opposite" if sep > 179 else "")


def case(d):
    m5 = gen.when(d)
    mjd = m5 * 1e-5
    k = d.i(0, 6)
    if k == 0:  # ends of years, leap days, month ends
        y = d.i(1960, 2052)
        t = datetime.datetime(y, *d.pick((1, 1), (2, 28), (3, 1), (12, 31), (6, 30), (7, 31))) + datetime.timedelta(days=d.i(0, 1))
        sec = int((t - MJD0).total_seconds()) + d.pick(0, 1, 86399, 43200, 86398)
        m5 = sec * 1000 // 864
        mjd = m5 * 1e-5
    else:
        sec = int(mjd * 86400) + d.i(0, 86399)
    nd = d.pick(5, 5, 5, 0, 1, 3, 7, 9)
    if k == 1:
        txt = gen.dec5(sec * 10 ** nd // 86400, nd) if nd else str(sec // 86400)
    else:
        txt = gen.dec5(m5 * 10 ** nd // 10 ** 5 + (d.i(0, 9999) if nd > 5 else 0), nd) if nd else str(m5 // 100000)
    vis = d.chance(4)
    p = None
    site = gen.site(d)
    if not vis and d.i(0, 4):
        p = [d.i(0, 3600000), d.i(-900000, 900000)]
        k = d.i(0, 7)
        if k == 0:
            p[1] = d.pick(900000, -900000, 899999, 0)
        elif k <= 3:  # on or next to the meridian, or the zenith
            t = sec / 86400 if k == 1 else float(txt)
            s = model.Site(site[0] * 1e-5, site[1] * 1e-5, 0)
            h = s.lmst(model.JD0 + t) * 15
            p[0] = int(round((h + d.pick(0, 0, 180, 1e-3, -1e-3, 0.1, -2)) * 1e4)) % 3600000
            if k == 3:
                p[1] = max(-900000, min(900000, site[0] // 10 + d.pick(0, 1, -1, 100, -100, 10000, -10000)))
        elif k == 4:  # at the Sun, or opposite
            ra, dec = model.sun(model.JD0 + float(txt))
            p = [int(degrees(ra) * 1e4) % 3600000, int(degrees(dec) * 1e4)]
            if d.flag():
                p = [(p[0] + 1800000) % 3600000, -p[1]]
    x = gen.sat(d, mjd, names=gen.plain_name, classes=("geo", "meo", "leo"))
    return dict(sats=[x], site=site, sec=sec, mjd=txt, by=d.pick("d", "j", "j"), vis=vis, span=d.i(0, 60), p=p, ms=d.i(0, 999) if d.flag() else 0, ms2=d.i(0, 999) if d.flag() else 0, E=d.chance(8), H=d.flag(), I=d.chance(5), V=d.chance(5), s=d.chance(6))


def part(f, quick, thorough):
    return GenPart("programs: " + f.__name__, case, f, quick, thorough, prepare=cli.prepare)
