from clic import *


def files(case, q, scratch):
    """splits the catalogue into files; returns the file argument"""
    cuts = case.get("cuts")
    if not cuts:
        sky.write_cat(scratch, q, **(case.get("lay") or {}))
        return "cat.tle"
    ends = sorted(min(c, len(q.sats)) for c in cuts) + [len(q.sats)]
    a, names = 0, []
    for i, e in enumerate(ends):
        n = "part%d.tle" % i
        part = q.sats[a:e]
        cli.write(os.path.join(scratch, n), sky.catalogue(part) if part else "# nothing here\n")
        names.append(n)
        a = e
    cli.write(os.path.join(scratch, "list.txt"), "".join(n + "\n" for n in names))
    return "@list.txt"


def check(case, rec, scratch):
    q = setup(case, scratch, rec, files=False)
    fname = files(case, q, scratch)
    a = q.args(fname)
    single = case.get("s") is not None or case.get("i") is not None
    r = cli.run("sat_skymap", a, scratch)
    j = r.json
    cmd = "sat_skymap " + " ".join(a)
    cand = q.candidates()
    sel = [k for k, x in enumerate(q.sats) if (x["norad"] == case["s"] if case.get("s") is not None else (model.full_desig(x) == case["i"] and case["i"] != "none") if case.get("i") is not None else sky.own_name(x).startswith(cli.b(case["S"])))]
    rec.label("-s" if case.get("s") is not None else "-i" if case.get("i") is not None else "-S", "several files" if case.get("cuts") else "", "present" if sel else "absent")
    if single and sel:
        x = q.sats[sel[0]]
        rec.label("number over 99999" if x["norad"] > 99999 else "", "several satellites match" if len(sel) > 1 else "", "piece of 2 or 3 letters" if len(x["desig"]) > 6 else "")
    if single and sel and q.seen[sel[0]].status != "ok":
        if q.seen[sel[0]].status == "none" and not (r.rc and j["status"] and j["errmsg"] and not sky.listed(j)):
            raise Violation("the requested satellite has no position, answer: exit %d, status %d, errmsg %r, %d listed: %s" % (r.rc, j["status"], j["errmsg"], len(sky.listed(j)), cmd))
        return
    if r.rc != 0 or j["status"] != 0:
        raise Violation("exit %d, status %d, %r: %s" % (r.rc, j["status"], j["errmsg"], cmd))
    rows = sky.listed(j)
    if not sel:
        rec.nontrivial()
        if rows or j["n_sats_found"] != 0 or j["n_sats"] != 0:
            raise Violation("nothing in the files matches, %s listed: %s" % ([(t["name"], t["intl_desig"], t["norad_n"]) for t in rows], cmd))
        if single and not j["errmsg"]:
            raise Violation("the satellite is not in the files and errmsg is empty: " + cmd)
    else:
        if single and len(rows) > 1:
            raise Violation("%d satellites listed for one: %s" % (len(rows), cmd))
        for t, k in q.match(rows):
            sky.check_identity(q, t, k)
            if sky.check_data(q, t, k):
                rec.nontrivial()
        if not rows and any(v == NO or v == YES for k, v in cand):
            rec.nontrivial()
    if single:
        visibility(case, q, fname, sel, rec, scratch)


def visibility(case, q, fname, sel, rec, scratch):
    m = q.case["m5"]
    a = [fname, "-l" + q.site_text, "-j%s,%s" % (gen.mjd_text(m), gen.mjd_text(m + case["len"])), "-r180", "-t%d" % case["step"]]
    a.append("-s%d" % case["s"] if case.get("s") is not None else "-i" + case["i"])
    if case["sel_first"]:
        a = [a[0]] + a[:0:-1]
    r = cli.run("sat_visibility", a, scratch)
    j, cmd = r.json, "sat_visibility " + " ".join(a)
    if not sel:
        if r.rc != 1 or j["status"] != 1 or "satellite" in j or not j["errmsg"]:
            raise Violation("the satellite is not in the files: exit %d, status %d, errmsg %r, satellite %r: %s" % (r.rc, j["status"], j["errmsg"], j.get("satellite", {}).get("name"), cmd))
        return
    o = q.seen[sel[0]]
    if o.status != "ok":
        return
    if r.rc != 0 or j["status"] != 0:
        raise Violation("exit %d, status %d, %r: %s" % (r.rc, j["status"], j["errmsg"], cmd))
    if "satellite" in j:
        sky.check_identity(q, j["satellite"], sel[0])
        if j["satellite"]["norad_n"] != q.sats[sel[0]]["norad"]:
            raise Violation("satellite %d reported: %s" % (j["satellite"]["norad_n"], cmd))
        rec.label("sat_visibility reports it")
    elif model.sunlit(o.p1, model.vec(*model.sun(q.jd))) is True:
        raise Violation("the satellite is sunlit and not reported: " + cmd)


FAMILIES = ("STARLINK-1", "STARLINK-10", "STARLINK-100", "STARLINK-1001", "STAR", "COSMOS 2251 DEB", "COSMOS 2251", "ISS (ZARYA)", "ISS", "Starlink-1", " STARLINK-1", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "ABCDEFGHIJKLMNOPQRSTUVW", "0 ISS", "1KUNS", "22")


def names(d):
    return gen.name(d) if d.chance(4) else d.pick(*FAMILIES)


def case(d):
    c = gen.base(d, nmin=1, nmax=9, norad=gen.norad_any, names=names)
    S = c["sats"]
    # designators that share beginnings
    for i, x in enumerate(S):
        if i and d.chance(3):
            o = d.pick(*S[:i])
            x["desig"] = (o["desig"][:5].ljust(5) + d.pick("A", "B", "AA", "AB", "A ", "AAA")).rstrip() if o["desig"] else o["desig"]
        if i and d.chance(8):  # the same satellite again, other elements and name
            x["norad"] = d.pick(*S[:i])["norad"]
    n = len(S)
    k = d.i(0, 9)
    t = S[d.i(0, n - 1)]
    if k < 4:
        c["s"] = t["norad"]
        if d.chance(3):
            c["s"] = max(0, c["s"] + d.pick(1, -1, 10, -100000, 100000, 1000000, -1000000, 340000, -340000, 65536, -65536))
    elif k < 7:
        v = model.full_desig(t)
        q = d.i(0, 8)
        c["i"] = v if q < 5 or v == "none" and q < 8 else v[:-1] if q == 5 else v + "A" if q == 6 else v[2:] if q == 7 else d.pick("1998-067A", "2098-067A", "1957-001B", v.lower(), t["desig"])
        if not c["i"] or c["i"] == "none":
            c["i"] = "2000-001A"
    else:
        nm = sky.s(sky.name_of(t["name"]))
        q = d.i(0, 5)
        v = nm if q == 0 else nm[:d.i(1, max(1, len(nm)))] if q < 4 else nm + d.pick("0", "A", "DEB") if q == 4 else d.pick(*FAMILIES)
        v = cli.b(v)[:23].decode("utf-8", "ignore")
        if not v.strip() or v.startswith("-"):
            v = "STAR"
        c["S"] = v
    c["H"] = d.flag()
    c["V"] = d.chance(5) and len({x["norad"] for x in S}) == n and (c.get("i") is None or sum(model.full_desig(x) == c["i"] for x in S) < 2)
    if d.chance(3):
        c["centre"], c["rad"] = gen.centre(d, n), gen.radius(d, n)
    if c.get("S") is None and d.chance(3):
        c["alt"] = [d.i(0, 4000), d.i(0, 4000)]  # ignored
    if c.get("S") is None and d.chance(4):
        c["E"] = True
    if d.chance(5):
        c["G"] = True
    if d.chance(3) and n > 1:
        c["cuts"] = d.some(1, 3, lambda: d.i(0, n))
    else:
        c["lay"] = gen.layout(d, n)
    c["len"], c["step"], c["sel_first"] = d.i(0, 200), d.i(1, 60), d.flag()
    return c


PARTS = [GenPart("select", case, check, 40000, 1000000, prepare=cli.prepare)]
RULE = RULE + "Non-trivial: the request matches nothing in the files, or a selected satellite's row was compared with the model."
ASSUMPTIONS = ASSUME
