from clic import *
import copy, re
import fuzzparts

SKY = ("swinfo", "input_params", "sun", "run_command", "status", "errmsg", "n_sats_found", "n_sats", "n_sunlit_sats")
VIS = ("swinfo", "geoloc_fields", "input_params", "run_command", "status", "errmsg", "n_sats_found")
ROW = {"name", "intl_desig", "norad_n", "data"}


def u8(x):
    return x.encode("utf-8", "surrogateescape")


def basics(prog, r):
    """what holds for every answer"""
    j, cmd = r.json, prog + " " + " ".join(r.argv)
    sky_ = prog == "sat_skymap"
    for k in ("swinfo", "run_command", "status", "errmsg", "n_sats_found") + (("n_sats", "n_sunlit_sats") if sky_ else ()):
        if k not in j:
            raise Violation("no member %r in the answer to: %s" % (k, cmd))
    if set(j["swinfo"]) != {"name", "author", "date", "version"} or j["swinfo"]["name"] != prog:
        raise Violation("swinfo %s: %s" % (j["swinfo"], cmd))
    if u8(j["run_command"]) != b" ".join([cli.b(prog)] + [cli.b(a) for a in r.argv]):
        raise Violation("run_command %r, the command was %r" % (j["run_command"], cmd))
    if not isinstance(j["status"], int) or not isinstance(j["errmsg"], str) or (j["status"] == 0) != (r.rc == 0):
        raise Violation("status %r with exit code %d: %s" % (j["status"], r.rc, cmd))
    if j["status"] != 0 and not j["errmsg"].strip():
        raise Violation("status %d without explanation: %s" % (j["status"], cmd))
    rows = j.get("satellites", [])
    if not isinstance(rows, list) or "satellites" in j and not rows:
        raise Violation("satellites is %r: %s" % (rows, cmd))
    if sky_:
        if "-I" not in r.argv and j["n_sats_found"] != len(rows):
            raise Violation("n_sats_found %d, %d satellites listed: %s" % (j["n_sats_found"], len(rows), cmd))
        if ("data_fields" in j) != bool(rows):
            raise Violation("data_fields with %d satellites: %s" % (len(rows), cmd))
        for t in rows:
            if set(t) - {"geoloc"} != ROW or ("geoloc" in t) != ("geoloc_fields" in j) or len(t["data"]) != 10 or not all(isinstance(v, (int, float)) for v in t["data"]) or not isinstance(t["name"], str):
                raise Violation("satellite %s: %s" % (t, cmd))
        if "input_params" in j and "geoloc_fields" in j and set(j["geoloc_fields"]) != {"lat", "lon", "alt", "theta"}:
            raise Violation("geoloc_fields %s: %s" % (j["geoloc_fields"], cmd))
    elif ("satellite" in j) != (j["n_sats_found"] == 1) or j["n_sats_found"] not in (0, 1):
        raise Violation("n_sats_found %r, satellite %sreported: %s" % (j["n_sats_found"], "" if "satellite" in j else "not ", cmd))
    if j["status"] == 0 and r.argv:
        miss = [k for k in (SKY if sky_ else VIS) if k not in j]
        if miss:
            raise Violation("members %s missing: %s" % (miss, cmd))


def echo(prog, case, q, j, fname, cmd):
    p = j["input_params"]
    la, lo, h = case["site"]
    checks = [("latitude", p["location"]["lat"], la * 1e-5, 0.51e-4), ("longitude", math.remainder(p["location"]["lon"] - lo * 1e-5, 360), 0, 0.51e-4), ("height", p["location"]["alt"], h * 0.1, 0.051), ("step", p["delta_time_s"], case.get("dt") or (1 if prog == "sat_skymap" else 3), 0)]
    if prog == "sat_skymap":
        checks += [("radius", p["region"]["radius"], q.rad, 0.51e-4), ("mjd", p["mjd"], q.mjd, 1e-9), ("max_sats", p["max_sats"], 1000 if case.get("n") is None else case["n"], 0), ("region ra", math.remainder(p["region"]["ra"] - q.ra_deg, 360), 0, 2e-4), ("region dec", p["region"]["dec"], q.dec_deg, 0.51e-4)]
    else:
        checks += [("radius", p["region"]["radius"], 90.0 if q.rad_text is None else q.rad, 0.51e-4), ("range start", p["mjd_range"][0], q.mjd, 1e-9), ("range end", p["mjd_range"][1], float(gen.mjd_text(case["m5"] + case["len"])), 1e-9)]
    for k, a, b, t in checks:
        sky.close("echoed " + k, a, b, t, ": " + cmd)
    if prog == "sat_skymap":
        one = case.get("s") is not None or case.get("i") is not None
        if j["n_sats"] < j["n_sats_found"] or not one and j["n_sats"] != j["n_sats_found"] or one and j["errmsg"] and j["n_sats"]:
            raise Violation("n_sats %d with n_sats_found %d, %r: %s" % (j["n_sats"], j["n_sats_found"], j["errmsg"], cmd))
    if p["tle_file"] != fname:
        raise Violation("tle_file %r: %s" % (p["tle_file"], cmd))


def check(case, rec, scratch):
    prog = "sat_visibility" if case["vis"] else "sat_skymap"
    q = setup(case, scratch, rec)
    for n, t in (("empty.tle", ""), ("d1/x", "")):
        os.makedirs(os.path.dirname(os.path.join(scratch, n)), exist_ok=True)
        cli.write(os.path.join(scratch, n), t)
    f = case["fault"]
    if case["vis"]:
        a = ["cat.tle", "-l" + q.site_text, "-j%s,%s" % (q.mjd_text, gen.mjd_text(case["m5"] + case["len"]))]
        if q.rad_text:
            a.append("-r" + q.rad_text)
        if case.get("dt"):
            a.append("-t%d" % case["dt"])
        a.append("-s%d" % case["s"] if case.get("s") is not None else "-i" + case["i"])
    else:
        a = q.args()
    fname, before, want = "cat.tle", None, None
    if f is None:
        pass
    elif f["k"] == "arg":
        if not f["t"].startswith(("unknown", "switch")):
            a = [x for x in a if x[:2] != f["v"][:2]]  # (the last one counts)
        a.insert(1 + f["at"] % len(a), f["v"])
    elif f["k"] == "last":
        a.append(f["v"])
    elif f["k"] == "drop":
        a = [x for x in a if x[:2] not in ("-s", "-i")]
    elif f["k"] == "file":
        fname = f["v"]
        a[0] = fname
    elif f["k"] == "list":
        half = f["at"] % (len(q.sats) + 1)
        sky.write_cat(scratch, q.sats[:half], name="p0.tle") if half else cli.write(os.path.join(scratch, "p0.tle"), "# nothing\n")
        sky.write_cat(scratch, q.sats[half:], name="p1.tle") if half < len(q.sats) else cli.write(os.path.join(scratch, "p1.tle"), "# nothing\n")
        cli.write(os.path.join(scratch, "list"), "p0.tle\n" + f["v"] + "\np1.tle\n")
        fname = "list"
        a[0] = "@list"
        before = half
    if case["file_last"] and f is None:
        a = a[1:] + a[:1]
    r = cli.run(prog, a, scratch)
    j, cmd = r.json, prog + " " + " ".join(a)
    basics(prog, r)
    rec.label(prog, "fault: " + (f["k"] + " " + f["t"] if f else "none"), "exit code %d" % r.rc)
    lim = 1000 if case.get("n") is None else max(0, case["n"])  # (what a limit under 1 means is not said)
    if f is not None and f["k"] == "list":
        # satellites of the files read before may already be there; a limit or a single satellite may end the run before
        rows = sky.listed(j)
        if r.rc:
            rec.nontrivial()
            if not case.get("I"):
                h = copy.copy(q)
                h.sats, h.seen = q.sats[:before], q.seen[:before]
                h.match(rows, limit=lim or 1000)
        else:
            # only allowed when the request was fulfilled before
            full = case.get("s") is not None or case.get("i") is not None or j["n_sats_found"] >= lim
            if not full:
                raise Violation("%s in a list file, and the run succeeds: %s" % (f["t"], cmd))
        rec.label("error after satellites were written" if r.rc and rows else "")
        return
    if f is not None:
        rec.nontrivial()
        if r.rc == 0:
            raise Violation("%s (%s), and status 0: %s" % (f["t"], f.get("v"), cmd))
        if sky.listed(j) or "satellite" in j:
            raise Violation("satellites listed in spite of %s: %s" % (f["t"], cmd))
        return
    # no fault
    single = case.get("s") is not None or case.get("i") is not None
    sel = [k for k, x in enumerate(q.sats) if (x["norad"] == case["s"] if case.get("s") is not None else model.full_desig(x) == case.get("i"))] if single else []
    if single and sel and q.seen[sel[0]].status == "none" and not case["vis"]:
        rec.nontrivial()
        rec.label("no position for the satellite")
        if r.rc == 0:
            raise Violation("no position for the satellite requested, and status 0: " + cmd)
        return
    if single and sel and q.seen[sel[0]].status != "ok":
        return
    if case["vis"] and not sel:
        rec.label("satellite not in the file")
        if r.rc == 0:
            raise Violation("the satellite is not in the file, and status 0: " + cmd)
        return
    if r.rc != 0:
        raise Violation("exit %d, %r: %s" % (r.rc, j["errmsg"], cmd))
    echo(prog, case, q, j, fname, cmd)
    for t, k in sky.row_by_norad(q, j):
        sky.check_identity(q, t, k)
        rec.nontrivial()
    rec.nontrivial(case["vis"])


def bad_arg(d, vis):
    """[(description, argument)] that has to fail"""
    k = d.i(0, 7)
    big = lambda: d.pick("90.0001", "-90.0001", "91", "-180", "1e9", "-1e300")
    num = d.pick("nan", "inf", "-inf", "NAN", "1e999", "-nan")
    if k == 0:
        return "unknown option", d.pick("-x", "-Z5", "-1", "--foo", "-?", "-k1,2", "-\"q", "-\\", "-\u00e9", "-@list", "-=3", "-7.5,3") if d.i(0, 2) else (d.pick("-E", "-G", "-H", "-I", "-V", "-n5", "-p10,20", "-SFOO") if vis else d.pick("-N", "-N5", "-b", "-A5", "-L1,2,3"))
    if k == 1:
        return "switch with characters", d.pick("-Nx", "-T0", "-NN", "-TN") if vis else d.pick("-Hx", "-GV", "-I0", "-E\"", "-TT", "-VV")
    if k == 2:
        return "latitude out of range", "-l%s,10,100" % big()
    if k == 3 and not vis:
        return ("RA out of range", "-p%s,10" % d.pick("-0.0001", "360.0001", "-1", "1e9")) if d.flag() else ("Dec out of range", "-p10,%s" % big())
    if k == 4:
        v = d.pick("1e9", "1e12", "nan", "inf", "1e300", "99999999999")
        return "MJD out of range", "-j" + (v + "," + v if vis else v)
    if k == 5:
        return "not finite", d.pick("-l%s,10,100", "-l10,%s,100", "-l10,20,%s", "-r%s") % num
    if k == 6:
        return "time step", "-t" + d.pick("0", "-1", "-100", "0.5", "abc", "0.999", "-0")
    return "not finite", "-r" + num if vis else d.pick("-r%s", "-p%s,10", "-p10,%s") % num


def case(d):
    vis = d.chance(3)
    c = gen.region_case(d, nmax=6)
    n = len(c["sats"])
    c["vis"] = vis
    c["len"] = d.i(0, 400)
    if d.i(0, 2):
        c["rad"] = gen.all_sky(d) if not vis else d.pick(1800000, 900000)
    elif vis:
        c["rad"] = d.pick(None, d.i(0, 1800000))
    for k in "EGIV":
        c[k] = not vis and d.chance(6)
    if vis and c.get("dt"):
        c["dt"] = max(5, c["dt"])
    if vis or d.chance(5):
        t = c["sats"][d.i(0, n - 1)]
        c["s"] = t["norad"]
        if d.chance(6):
            c["s"] += 1
        if model.full_desig(t) != "none" and d.chance(4):
            c["i"] = model.full_desig(t)
            del c["s"]
        c["V"] = False
    elif d.chance(6):
        c["S"] = d.pick("STAR", "COSMOS", "OBJECT", "SL-16", "1", "\"", "\\", "%s")
    if d.chance(6) and not vis:
        c["n"] = d.i(1, 5) if d.i(0, 2) else d.pick(0, -1, -5)
    k = d.i(0, 9)
    f = None
    if k < 2:
        t, v = bad_arg(d, vis)
        f = dict(k="arg", t=t, v=v, at=d.i(0, 11))
    elif k == 2:
        f = dict(k="last", t="option without value", v="-" + d.pick(*("adDijlrst" if vis else "adDijlnprsSt")))
    elif k == 3:
        f = dict(k="file", t="file missing, empty or not a file", v=d.pick("nofile", "empty.tle", "d1", "@nolist", "d1/nofile", "@d1/nolist", "no\"file\\", "\u00e9.tle", "x" * 200))
    elif k < 6:
        f = dict(k="list", t="file missing or empty", v=d.pick("nofile", "empty.tle", "d1", "no\"such\\file", "\u00e9", "d1/x"), at=d.i(0, 12))
    elif k == 6 and vis:
        f = dict(k="drop", t="no satellite asked for")
    if f and f["k"] == "arg" and f["v"][1:2] in "jd" and vis and "-" in f["v"][2:]:
        f = None
    c["fault"] = f
    c["file_last"] = d.chance(3)
    c["lay"] = gen.layout(d, n)
    return c


# ---- anything goes: the answer is one JSON object all the same
FRAG = ("1", "0", "-1", "90", "-90", "360", "58861.5", "1e5", "nan", "inf", "-inf", "1e400", "abc", "", ",", ",,", "10,20", "10,20,30", "10,20,30,40", "-10,-20,-30", "\"", "\\", "%s%n%d", "2020-01-13T12:00:00", "2020-02-30T99:99:99",
        "2020-01-13T12:00:00,2020-01-13T12:10:00", "58861.5,58861.51", "25544", "1998-067A", "ISS", "99999999999999999999", "-0", "0x10", "\u00e9\u2603", "\x01\x02\x1f", "\t", "  ", "'", "</script>", "{}", "[1]", "a" * 300, ".", "..", "/", "./cat.tle", "cat.tle")


def soup(d):
    vis = d.chance(3)
    c = gen.base(d, nmax=4, dt=False)
    a = []
    letters = "adDijlrstNT" if vis else "adDijlnprsStEGHIVT"
    for _ in range(d.i(0, 8)):
        k = d.i(0, 11)
        o = letters[d.i(0, len(letters) - 1)]
        v = d.pick(*FRAG)
        if d.chance(4):
            v += d.pick(",", "", "-", "e") + d.pick(*FRAG)
        if k < 6:
            a.append("-" + o + v)
        elif k < 8:
            a += ["-" + o, v]
        elif k == 8:
            a.append("-" + o)
        elif k == 9:
            a.append(v)
        else:
            a.append("-" + d.text("abcdeEGHIjlnprsStTVNx0123-@\"\\ ", 0, 5))
    site = "-l" + gen.site_text(c["site"])
    if d.i(0, 4):
        a.insert(d.i(0, len(a)), site)
    if d.i(0, 3):
        a.insert(d.i(0, len(a)), "-j" + gen.mjd_text(c["m5"]) + ("," + gen.mjd_text(c["m5"] + 50) if vis else ""))
    if d.i(0, 3) and vis:
        a.insert(d.i(0, len(a)), "-s%d" % c["sats"][0]["norad"])
    if d.flag() and not vis:
        a.append("-r400")
    c["vis"], c["args"] = vis, a
    c["where"] = d.i(0, 3)
    return c


def soup_check(case, rec, scratch):
    prog = "sat_visibility" if case["vis"] else "sat_skymap"
    sky.write_cat(scratch, case["sats"])
    cli.write(os.path.join(scratch, "list"), "# list\ncat.tle\n")
    a = list(case["args"])
    f = "@list" if case["where"] == 2 else "cat.tle"
    a = a + [f] if case["where"] == 1 else [f] + a
    # keep sat_visibility's time range short: a long one is a long run, not a hang
    if case["vis"] and span(a) > 0.2:
        return
    r = cli.raw(prog, a, scratch, case.get("variant", "plain"))
    if r.out.startswith(b"Usage:"):
        asked = any(x[:2] == "-h" for x in a) or not any(x[:2] == "-l" for x in a) or case["vis"] and any(x[:2] in ("-d", "-j") for x in a) or any(len(x) == 2 and x[0] == "-" for x in a)
        if not asked:
            raise Violation("help text for: %s %s" % (prog, a))
        rec.label("help")
        return
    r.json = cli.parse(r.out, "%s %s" % (prog, a))
    basics(prog, r)
    rec.nontrivial()
    rec.label(prog, "success" if r.rc == 0 else "failure", "satellites listed" if r.json.get("satellites") or "satellite" in r.json else "")


def span(a):
    """an upper limit of the time range in days a request may ask for"""
    js = [s[2:] for s in a if s[:2] == "-j"]
    ok = js and all(re.fullmatch(r"[0-9]{5}\.[0-9]{5},[0-9]{5}\.[0-9]{5}|58861\.5,58861\.51", x) for x in js) and not any(s[:2] == "-d" for s in a) and "-j" not in a
    return 0.1 if ok else 9.9


PARTS = [GenPart("outcome", case, check, 40000, 1000000, prepare=cli.prepare), GenPart("any arguments", soup, soup_check, 40000, 1000000, prepare=cli.prepare),
         fuzzparts.prog_part(0, 1, 1_200_000, 60_000_000), fuzzparts.prog_part(1, 1, 300_000, 20_000_000)]
RULE = RULE + "Non-trivial: satellites are listed, or the request has a planted fault; for the arbitrary argument vectors: the answer is not the help text."
ASSUMPTIONS = ASSUME + ["help text is not judged"]
