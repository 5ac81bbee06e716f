from clic import *
import datetime

VALUE = "adDijlnprsSt"


def norm(j):
    j = json.loads(json.dumps(j))
    j.pop("run_command", None)
    j.get("input_params", {}).pop("tle_file", None)
    return j


def iso(m5):
    """calendar date of a whole multiple of 45 minutes, or of the nearest second"""
    return (datetime.datetime(1858, 11, 17) + datetime.timedelta(seconds=round(m5 * 0.864))).strftime("%Y-%m-%dT%H:%M:%S")


def second(m5):
    """the five digits of an MJD that name a whole second"""
    s = round(m5 * 0.864)
    while abs(s / 0.864 % 1 - 0.5) < 0.02:
        s += 1
    return round(s / 0.864)


def spell(opts, sp, fname, first):
    out = []
    for (o, v), s in zip(opts, sp):
        if v is None:
            out.append("-" + o)
        elif s:
            out += ["-" + o, v]
        else:
            out.append("-" + o + v)
    return [fname] + out if first else out + [fname]


NUMERIC = {"t": 5, "r": 5, "j": 5, "l": 5, "p": 5, "a": 5, "n": 3, "s": 3}
DEFAULTS = {False: [["r", "20"], ["t", "1"], ["n", "1000"], ["D", "./"]], True: [["r", "90"], ["t", "3"], ["D", "./"]]}


def respell(o, v, mode):
    """the same numbers, written differently: leading zeros, a plus sign, trailing zeros, an exponent"""
    out = []
    for k, x in enumerate(v.split(",")):
        m = mode // 6 ** k % 6
        neg = x.startswith("-")
        if m == 1:
            x = "-0" + x[1:] if neg else "0" + x
        elif m == 2 and not neg:
            x = "+" + x
        elif NUMERIC[o] > 3:
            if m == 3:
                x = x + ("00" if "." in x else ".0")
            elif m == 4:
                x += "e0"
            elif m == 5 and "." in x:
                x = x.rstrip("0").rstrip(".")
        out.append(x)
    return ",".join(out)


def same(a, b, what):
    if a.rc != b.rc or norm(a.json) != norm(b.json):
        x, y = norm(a.json), norm(b.json)
        d = [k for k in set(x) | set(y) if x.get(k) != y.get(k)]
        raise Violation("%s: exit %d and %d, different: %s" % (what, a.rc, b.rc, "; ".join("%s: %s / %s" % (k, json.dumps(x.get(k))[:700], json.dumps(y.get(k))[:700]) for k in d)))


def near(x, y, path, tol):
    """equal but for the last printed digits"""
    if isinstance(x, dict) and isinstance(y, dict):
        if set(x) != set(y):
            return "%s: members %s / %s" % (path, sorted(x), sorted(y))
        for k in x:
            r = near(x[k], y[k], path + "." + k, tol)
            if r:
                return r
        return None
    if isinstance(x, list) and isinstance(y, list):
        if len(x) != len(y):
            return "%s: %d / %d entries" % (path, len(x), len(y))
        for i, (p, q) in enumerate(zip(x, y)):
            r = near(p, q, "%s[%d]" % (path, i), tol)
            if r:
                return r
        return None
    if isinstance(x, (int, float)) and isinstance(y, (int, float)) and not isinstance(x, bool):
        return tol(path, x, y)
    return None if x == y else "%s: %r / %r" % (path, x, y)


def lon_tol(path, x, y):
    d = abs(x - y)
    for turn in (24, 360) if ".location" not in path else ():
        d = min(d, abs(abs(x - y) - turn))
    lim = 1.01 if path.endswith(("data[6]", ".PA")) else 0.0111 if path.endswith(("data[4]", ".Distance", "geoloc.alt")) else 0.0 if path.endswith(("norad_n", "n_sats_found", "n_sats", "n_sunlit_sats", "max_sats", "status", "data[9]")) else 0.00111
    return None if d <= lim * 1.0001 + 1e-12 else "%s: %r / %r" % (path, x, y)


def check(case, rec, scratch):
    vis = case["vis"]
    prog = "sat_visibility" if vis else "sat_skymap"
    q = sky.Request(case)
    os.makedirs(os.path.join(scratch, "d1"), exist_ok=True)
    sky.write_cat(scratch, q)
    sky.write_cat(scratch, q, name="d1/cat.tle")
    single = case.get("s") is not None or case.get("i") is not None
    # canonical request
    o = [["l", q.site_text]]
    m5 = case["m5"]
    two = lambda f: f(m5) + "," + f(second(m5 + case["len"])) if vis else f(m5)
    date, mjd = two(iso), two(gen.mjd_text)
    when = ["d", date] if case["use_d"] else ["j", mjd]
    o.append(when)
    if case.get("dt"):
        o.append(["t", str(case["dt"])])
    if case.get("s") is not None:
        o.append(["s", str(case["s"])])
    if case.get("i") is not None:
        o.append(["i", case["i"]])
    if q.rad_text is not None and (vis or not single):
        o.append(["r", q.rad_text])
    if not vis:
        if q.p_text and not single and not case.get("E"):
            o.append(["p", q.p_text])
        if case.get("S"):
            o.append(["S", case["S"]])
        if case.get("alt") and not single:
            o.append(["a", "%d,%d" % tuple(case["alt"])])
        if case.get("n"):
            o.append(["n", str(case["n"])])
        for k in "EGHIV":
            if case.get(k):
                o.append([k, None])
    elif case.get("N"):
        o.append(["N", None])
    canon = spell(o, [0] * len(o), "cat.tle", True)
    A = cli.run(prog, canon, scratch)
    listed = "satellites" in A.json or "satellite" in A.json
    rec.nontrivial(A.rc == 0 and (listed or case.get("I") or vis))
    rec.label(prog, "error answer" if A.rc else "", "satellites reported" if listed else "")

    # another spelling of the same
    p = [list(x) for x in o]
    fname, fcanon = "cat.tle", None
    kind = case["extra"]
    if kind & 1 and case["use_d"]:
        p.append(["j", case["other_j"]])
        rec.label("-d over -j")
    if kind & 2:
        p.append(["D", case["dirname"]])
        p.append(["T", None])
        rec.label("-D over -T")
    elif kind & 4:
        p.append(["D", case["dirname"]])
        rec.label("-D")
    elif kind & 8:
        fname = case["path"]
        if case.get("dnot"):
            p.append(["D", "nowhere"])
        rec.label("file with directory")
    ign = case["ignored"]
    if single and not vis:
        if "p" in ign and q.p_text:
            p.append(["p", q.p_text])
            rec.label("-s/-i over -p")
        if "a" in ign:
            p.append(["a", "%d,%d" % tuple(case["alt_ign"])])
            rec.label("-s/-i over -a")
    if case.get("E") and not single and "p" in ign and q.p_text:
        p.append(["p", q.p_text])
        rec.label("-E over -p")
    if vis and "a" in ign:
        p.append(["a", "%d,%d" % tuple(case["alt_ign"])])
    for k in case["again"]:
        if [k, None] in p:
            p.append([k, None])
            rec.label("switch repeated")
    given = [x[0] for x in p]
    for i, x in enumerate(DEFAULTS[vis]):
        if case["defaults"] >> i & 1 and x[0] not in given and (x[0] != "D" or (fname == "cat.tle" and "T" not in given)):
            p.append(list(x))
            rec.label("default spelled out: -" + x[0])
    for i, x in enumerate(p):
        if x[0] in NUMERIC and case["num"][i % len(case["num"])] % 3 == 0:
            v = respell(x[0], x[1], case["num"][i % len(case["num"])] // 3)
            if v != x[1]:
                x[1] = v
                rec.label("number written differently")
    # order
    key = case["perm"]
    p = [x for _, x in sorted(zip((key * (len(p) // len(key) + 1))[:len(p)], p), key=lambda t: t[0])]
    sp = [(case["space"] >> i) & 1 for i in range(len(p))]
    argv = spell(p, sp, fname, case["first"])
    B = cli.run(prog, argv, scratch)
    rec.label("file last" if not case["first"] else "", "a space after an option" if any(sp) else "")
    same(A, B, "%s %s / %s" % (prog, " ".join(canon), " ".join(argv)))

    # -r is without effect on a single satellite, apart from its echo
    if single and not vis and q.rad_text:
        C = cli.run(prog, canon + ["-r" + q.rad_text], scratch)
        for t in (A, C):
            t.json.get("input_params", {}).get("region", {}).pop("radius", None)
        same(A, C, "%s %s, and with -r%s" % (prog, " ".join(canon), q.rad_text))
        rec.label("-s/-i over -r")

    # the other way to name the epoch
    alt = [["d", date] if x is when and not case["use_d"] else ["j", mjd] if x is when else x for x in o]
    C = cli.run(prog, spell(alt, [0] * len(alt), "cat.tle", True), scratch)
    what = "%s %s / %s" % (prog, " ".join(canon), when[0] + " the other way")
    A = cli.run(prog, canon, scratch)
    if m5 % 3125 == 0 and (not vis or case["len"] % 3125 == 0):
        same(A, C, what)
        rec.label("-d and -j, exactly")
    elif not vis:
        x, y = sky.listed(A.json), sky.listed(C.json)
        sure = case.get("rad", 0) == 3600000 and not case.get("V") and not case.get("alt") and not case.get("n")
        if sure and [t["norad_n"] for t in x] != [t["norad_n"] for t in y]:
            raise Violation("%s: lists %s / %s" % (what, [t["norad_n"] for t in x], [t["norad_n"] for t in y]))
        by = {t["norad_n"]: t for t in y}
        for t in x:
            if t["norad_n"] in by:
                u = by[t["norad_n"]]
                tol = 0.02
                for i in (0, 2):
                    if t["data"][i + 1] and abs(t["data"][i + 1]) < 89.9:
                        sky.dir_close(what + ": position of %d" % t["norad_n"], t["data"][i], t["data"][i + 1], radians(u["data"][i]), radians(u["data"][i + 1]), tol)
        rec.label("-d and -j, rounded")

    # longitude minus or plus 360
    la, lo, h = case["site"]
    if lo % 10 == 0 and lo != 0:
        lo2 = lo + 36000000 if lo < 0 else lo - 36000000
        if -36000000 < lo2 < 36000000 and lo2 != 0:
            alt = [["l", gen.site_text([la, lo2, h])] if x[0] == "l" else x for x in o]
            C = cli.run(prog, spell(alt, [0] * len(alt), "cat.tle", True), scratch)
            r = "exit" if A.rc != C.rc else near(norm(A.json), norm(C.json), "", lon_tol)
            if r and not (pole(q) and ".alt" not in r):
                raise Violation("%s %s / longitude %s: %s" % (prog, " ".join(canon), gen.dec5(lo2), r))
            rec.label("longitude by a full turn")


def pole(q):
    return abs(q.case["site"][0]) > 8990000


def case(d):
    c = gen.region_case(d, nmax=6, special=not d.chance(3), names=gen.plain_name)
    vis = c["vis"] = d.chance(3)
    n = len(c["sats"])
    t = c["sats"][d.i(0, n - 1)]
    if vis or d.chance(3):
        if t["desig"] and d.flag():
            c["i"] = model.full_desig(t)
        else:
            c["s"] = t["norad"]
    if d.flag():
        c["m5"] = c["m5"] // 3125 * 3125
    c["m5"] = second(c["m5"])
    c["site"][1] = c["site"][1] // 10 * 10
    c["use_d"] = d.flag()
    c["len"] = d.pick(0, 3125, 6250, 100, 1234)
    if vis:
        c["dt"] = d.pick(None, 10, 20, 60, 61)
        c["N"] = d.flag()
        c["H"] = False
        c["rad"] = d.pick(None, 1800000, 900000, 700000, 1000000)
    else:
        if d.flag():
            c["rad"] = 3600000
        for k in "EGIV":
            c[k] = d.chance(5)
        if d.chance(6) and not vis and c.get("s") is None and c.get("i") is None:
            c["S"] = d.pick("STAR", "COSMOS", "OBJECT", "SL-16")
        if d.chance(6):
            c["alt"] = [d.i(0, 40000), d.i(0, 40000)]
        if d.chance(6):
            c["n"] = d.i(1, 6)
    c["extra"] = d.i(0, 15)
    c["other_j"] = gen.mjd_text(gen.when(d)) + ("," + gen.mjd_text(gen.when(d)) if vis else "")
    c["dirname"] = d.pick("d1", "d1/", "./d1", "d1/../d1", ".")
    c["path"] = d.pick("./cat.tle", "d1/cat.tle", "d1/../cat.tle")
    c["dnot"] = d.flag()
    c["ignored"] = d.pick("", "p", "a", "pa")
    c["alt_ign"] = [d.i(0, 4000), d.i(0, 4000)]
    c["again"] = d.text("EGHIVNT", 0, 4)
    c["perm"] = [d.i(0, 9999) for _ in range(14)]
    c["space"] = d.i(0, 2 ** 16 - 1)
    c["first"] = d.flag()
    c["defaults"] = d.i(0, 15) if d.flag() else 0
    c["num"] = [d.i(0, 3 * 6 ** 3 - 1) for _ in range(9)]
    return c


PARTS = [GenPart("spelling", case, check, 26000, 800000, prepare=cli.prepare)]
RULE = RULE + "Non-trivial: the request succeeds and reports satellites (or, for sat_visibility, an answer)."
ASSUMPTIONS = ASSUME
