SM, SV = "src/sat_skymap.c", "src/sat_visibility.c"
BUGS = []
def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))

bug("c05-info-entering", "C05", "-I and a sunlit satellite that is in the region at the second epoch only",
    "information-only runs leave satellites that only enter the region out of the sunlit count",
    [(SM, "	  if ( is_sunlit )\n		n_sunlit_sats++;", "	  if ( is_sunlit && (!p.info_only || ang_sep <= p.search_radius) )\n		n_sunlit_sats++;")], '''
t = "".join(sat("S%02d" % i, num="%05d" % (20000 + i), ma=i * 9, mm=12) for i in range(40))
n = 0
for k in range(40):
    a = ["-l0,%d,0" % (k * 9), "-r30", "-t300", "-H"]
    x, y = skymap(a, t)[1], skymap(a + ["-I"], t)[1]
    check(x["n_sunlit_sats"] == y["n_sunlit_sats"], x["n_sunlit_sats"], y["n_sunlit_sats"])
    n += x["n_sunlit_sats"]
check(n > 3, n)
''')

bug("c07-repeat-lit", "C07", "-V together with -S, and a satellite that is in the files twice",
    "satellites selected by name among the sunlit ones are not remembered, so that one met twice is listed twice",
    [(SM, "		strcat(sbuff, norad_name);\n		use_bufflen += 6;", "		if ( !p.sunlit_only || !p.satname_filter )\n		  strcat(sbuff, norad_name);\n		use_bufflen += 6;")], '''
t = "".join(sat("S%02d" % i, num="%05d" % (20000 + i % 5), ma=i % 5 * 70) for i in range(12))
for a in ([], ["-V"], ["-S", "S"], ["-V", "-S", "S"]):
    r = names(skymap(["-l10,20,0", "-r180", "-H"] + a, t)[1])
    check(len(r) <= 5, a, r)
''')

bug("c25-pa-plane", "C25", "an interval that is not close to the celestial equator (the position angle)",
    "the position angle of motion is not corrected for the declination",
    [(SV, "	d_ra *= cos(sat.dec);\n", "	d_ra *= cos(dec1 - sat.dec);\n")], '''
n = 0
for k in range(40):
    t = sat("S", mm=8.2, incl=70, node=k * 9)
    j = vis(["-l60,10,0", "-j58861.7,58862.3", "-t2", "-s25544", "-r80"], t)[1]
    if "satellite" in j:
        s = j["satellite"]["sat_start"]
        if abs(s["dec"]) > 80:
            continue
        r = skymap(["-l60,10,0", "-j%.5f" % s["MJD"], "-t2", "-s25544"], t)[1]["satellites"][0]["data"]
        e = (s["PA"] - r[6] + 180) % 360 - 180
        check(abs(e) <= 3, s, r)
        n += 1
check(n > 8, n)
''')

bug("c25-speed-flat", "C25", "a step of more than a minute",
    "the speed is not divided by the whole step for steps of more than a minute",
    [(SV, "	sat.speed = skysep_h(sat.ra, sat.dec, ra1, dec1) * 60 / p.delta_time;  /* arcminutes/second */", "	sat.speed = skysep_h(sat.ra, sat.dec, ra1, dec1) * 60 / (p.delta_time > 60 ? 60 : p.delta_time);  /* arcminutes/second */")], '''
n = 0
for k in range(40):
    t = sat("S", mm=4.2, incl=60, node=k * 9)
    a, b = [vis(["-l40,10,0", "-j58861.7,58862.3", "-t%d" % dt, "-s25544", "-r80"], t)[1] for dt in (60, 120)]
    if "satellite" in a and "satellite" in b:
        x, y = a["satellite"]["sat_start"], b["satellite"]["sat_start"]
        if abs(x["MJD"] - y["MJD"]) < 1e-5:
            check(abs(x["Speed"] - y["Speed"]) < .2 * x["Speed"] + 0.05, x, y)
            n += 1
check(n > 4, n)
''')

bug("c24-lazy-max", "C24", "a satellite whose height changes slowly near the highest point",
    "the highest point is only moved for a gain of a hundredth of a degree",
    [(SV, "    if ( sat.ang_sep < min_ang_sep && sat.is_sunlit ) {", "    if ( sat.ang_sep < min_ang_sep - 0.01 && sat.is_sunlit ) {")], '''
n = 0
for k in range(60):
    t = sat("S", mm=3.0 + k * .01, incl=60, node=k * 6)
    a = ["-l40,10,0", "-j58861.6,58862.4", "-t10", "-s25544", "-r80"]
    j = vis(a, t)[1]
    if "satellite" in j:
        s = j["satellite"]
        m = s["sat_max"]
        for d in (-40, -30, -20, -10, 10, 20, 30, 40):
            x = m["MJD"] + d / 86400.
            if s["sat_start"]["MJD"] <= x <= s["sat_end"]["MJD"]:
                r = vis(["-l40,10,0", "-j%.6f,%.6f" % (x, x + 1e-4), "-t30", "-s25544", "-r80"], t)[1]
                if "satellite" in r:
                    check(r["satellite"]["sat_start"]["Separation"] > m["Separation"] - 0.003, m, r["satellite"]["sat_start"])
                    n += 1
check(n > 40, n)
''')

bug("c24-daylight-gap", "C24", "-N and a site where the Sun is up for most of the range",
    "with -N the wait for sunset goes by steps of ten minutes, so that intervals begin late",
    [(SV, "	t += 0.0007;", "	t += 0.007;")], '''
lo, hi = 58861.55, 58861.85
alt = lambda m: skymap(["-l40,10,0", "-j%.5f" % m], sat("A"))[1]["sun"]["alt"]
for _ in range(14):
    mid = (lo + hi) / 2
    if alt(mid) > 0:
        lo = mid
    else:
        hi = mid
n = 0
for k in range(40):
    t = sat("S", mm=2.1, incl=60, node=k * 9, ma=k * 31 % 360)
    a = ["-l40,10,0", "-t20", "-s25544", "-r80"]
    b = vis(a + ["-j%.5f,%.5f" % (hi, hi + .02)], t)[1]
    if "satellite" in b and b["satellite"]["sat_start"]["MJD"] < hi + 1e-4:
        for q in range(4):
            j = vis(a + ["-j%.5f,58862.2" % (58861.52 + q * .0017), "-N"], t)[1]
            check("satellite" in j and j["satellite"]["sat_start"]["MJD"] < hi + 0.0013, hi, j.get("satellite"))
            n += 1
check(n > 20, n)
''')

bug("c03-late-axes", "C03", "a satellite close to a celestial pole that moves in declination",
    "the motion in right ascension is scaled with the declination at the end",
    [(SM, "	  d_ra *= cos(dec);", "	  d_ra *= cos(dec1);")], '''
n = 0
for k in range(30):
    t = sat("S", mm=14, incl=90, node=k * 12, ma=k * 17)
    d = skymap(["-l80,10,0", "-s25544", "-t240"], t)[1]["satellites"][0]["data"]
    r = math.radians
    dr = (d[2] - d[0] + 180) % 360 - 180
    if abs(dr) > 170 or abs(d[3] - d[1]) < 1:
        continue
    pa = math.degrees(math.atan2(r(dr) * math.cos(r(d[1])), r(d[3] - d[1]))) % 360
    e = (d[6] + .5 - pa + 180) % 360 - 180
    check(abs(e) < 1, d, pa)
    n += 1
check(n > 8, n)
''')

bug("c08-list-limit", "C08", "a list of files, -n, and no sunlit satellite among the first ones",
    "for a list of files the limit stops the search only once a sunlit satellite was met",
    [(SM, "	  if ( single_sat_found || n_sats_found == p.max_sats ) {", "	  if ( single_sat_found || (n_sats_found == p.max_sats && (!input_list || n_sunlit_sats)) ) {")], '''
m = 0
for k in range(24):
    f = {"a": "".join(sat("S%02d" % i, num="%05d" % (20000 + i), ma=k * 15 + i * 4) for i in range(6)), "l": "a\\n"}
    j = run("sat_skymap", ["@l", "-l10,20,0", "-r180", "-H", "-n2"], f)[1]
    check(len(names(j)) == 2, names(j))
    m += j["n_sunlit_sats"] == 0
check(m > 2, m)
''')
