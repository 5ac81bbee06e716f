BUGS = []
def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))
SM, SV = "src/sat_skymap.c", "src/sat_visibility.c"

bug("c01-dec-abs", "C01", "a declination out of range by less than one degree (between 90 and 91 in absolute value)",
    "Dec out of range is accepted: the run reports success instead of failing with status -1",
    [(SM, "if ( p.de_deg < -90. || p.de_deg > 90. )  {", "if ( abs((int)p.de_deg) > 90 )  {")], '''
for de in ("-90.5", "90.25", "95", "-91"):
    rc, j = skymap(["-l10,20,0", "-p10," + de], sat("A"))
    check(rc == 255 and isinstance(j, dict) and j["status"] == -1, de, rc, j)
rc, j = skymap(["-l10,20,0", "-p10,-90"], sat("A"))
check(rc == 0 and j["status"] == 0, rc, j)
''')

bug("c02-second-epoch-dec", "C02", "no -H, and a satellite that enters the region between the two epochs moving in declination",
    "the separation at the second epoch mixes the second RA with the first Dec, so satellites that enter the region (or only seem to) are missed or listed wrongly",
    [(SM, "		d_dec = dec1 - target_dec;\n", "		d_dec = dec - target_dec;\n")], '''
t = "".join(sat("S%02d" % i, num="%05d" % (20000 + i), node=i * 23 % 360, ma=i * 67 % 360, incl=70 + i % 20) for i in range(90))
base = ["-l40,10,100", "-j58862.0", "-t60", "-p120,40"]
rc, j = skymap(base + ["-r400"], t)
rows = {s["name"]: s["data"] for s in j["satellites"]}
check(len(rows) == 90, len(rows))
def sep1(ra, d): return math.hypot((ra - 120 + 180) % 360 - 180, d - 40)
for r in (20, 40, 60):
    rc, j = skymap(base + ["-r%d" % r], t)
    got = set(names(j))
    for n, x in rows.items():
        m = min(sep1(x[0], x[1]), sep1(x[2], x[3]))
        if abs(m - r) > 0.001:
            check((n in got) == (m < r), r, n, m)
''')

bug("c02-init-cache", "C02", "two consecutive near-earth satellites of the catalogue with exactly the same epoch",
    "the propagator is not initialised again when the epoch is that of the previous satellite, so the second one is put where a mixture of the two is",
    [(SM, "	} else {\n		SGP4_init(sat_params, &tle);\n		rval =", "	} else {\n		static double init_epoch;\n		if ( init_epoch != tle.epoch ) {\n		  init_epoch = tle.epoch;\n		  SGP4_init(sat_params, &tle);\n		}\n		rval =")], '''
a, b = sat("AAA", num="00011"), sat("BBB", num="00022", mm=14.2, incl=98, node=10)
o = ["-l40,10,100", "-j58861.9", "-r180", "-H"]
one = skymap(o, b)[1]["satellites"][0]
both = skymap(o, a + b)[1]["satellites"]
x = [s for s in both if s["name"] == "BBB"]
check(len(x) == 1 and x[0] == one, x, one)
''')

bug("c03-observer2-int", "C03", "any satellite; shows in the second position, most for near satellites and for short steps",
    "the observer does not move between the two epochs, so the second position, the speed and the position angle are wrong",
    [(SM, "  observer_cartesian_coords(jd + p.delta_time / SEC_IN_DAY,", "  observer_cartesian_coords(jd + p.delta_time / (24 * 3600),")], '''
t = sat("S", mm=1.00273, incl=0.05)
for dt in (60, 600):
    a = skymap(["-l0,10,0", "-j58862.0", "-t%d" % dt, "-s25544"], t)[1]["satellites"][0]["data"]
    b = skymap(["-l0,10,0", "-j%.9f" % (58862.0 + dt / 86400.), "-s25544"], t)[1]["satellites"][0]["data"]
    check(sep(a[2], a[3], b[0], b[1]) < 0.004, dt, a, b)
''')

bug("c03-flat-speed", "C03", "a satellite close to a celestial pole or a long second-epoch interval",
    "Speed is the flat length of the coordinate differences instead of the great-circle rate",
    [(SM, "	  speed = skysep_h(ra, dec, ra1, dec1) * 60 / p.delta_time;", "	  speed = sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG * 60 / p.delta_time;")], '''
t = "".join(sat("S%02d" % i, num="%05d" % (20000 + i), node=i * 23 % 360, ma=i * 67 % 360, incl=90) for i in range(60))
for s in skymap(["-l60,10,0", "-j58862.0", "-t40", "-r180", "-H"], t)[1]["satellites"]:
    d = s["data"]
    check(abs(sep(*d[:4]) * 60 / 40 - d[7]) < 0.002, s)
''')

bug("c04-desig-1957", "C04", "a satellite of a 1957 launch asked for by its designator",
    "objects launched in 1957 are looked up as launched in 2057, so -i never finds them",
    [(SM, '			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),\n			tle.intl_desig, tle.intl_desig + 2);\n		  trimend(intl_desig);\n		}\n\n		if ( !strcmp', '			(atoi( tle.intl_desig) > 57999 ? "19" : "20"),\n			tle.intl_desig, tle.intl_desig + 2);\n		  trimend(intl_desig);\n		}\n\n		if ( !strcmp')], '''
t = sat("ONE", num="00011", desig="58002B  ") + sat("TWO", num="00002", desig="57001B  ") + sat("NEW", num="00003", desig="56001A  ")
for d, n in (("1957-001B", ["TWO"]), ("1958-002B", ["ONE"]), ("2056-001A", ["NEW"]), ("2057-001B", [])):
    rc, j = skymap(["-l10,20,0", "-i", d], t)
    check(rc == 0 and names(j) == n, d, j)
''')

bug("c04-name-case", "C04", "-S with text that equals the start of a name but for the case of letters",
    "-S ignores the case of letters, so it also lists satellites whose name does not start with the text",
    [(SM, "		if ( memcmp(sat_name, p.satname, len_satname) )\n", "		if ( strncasecmp(sat_name, p.satname, len_satname) )\n")], '''
t = sat("Cosmos 1", num="00011") + sat("COSMOS 2", num="00022") + sat("COS", num="00033")
check(names(skymap(["-l10,20,0", "-S", "COSMOS"], t)[1]) == ["COSMOS 2"])
check(names(skymap(["-l10,20,0", "-S", "Cosmos"], t)[1]) == ["Cosmos 1"])
''')

bug("c05-polar-radius", "C05", "a satellite whose line to the Sun passes between 6357 and 6378 km from the Earth's centre",
    "the shadow is that of a sphere of polar radius, so satellites just inside the shadow are flagged sunlit",
    [(SM, "  c -= ERAD * ERAD;", "  const double radius = ERAD * (1. - F);\n  c -= radius * radius;")], '''
import random
random.seed(5)
t = "".join(sat("S%03d" % i, num="%05d" % (20000 + i), mm=1.00273, ma=180 + 0.02 * i, node=0, argp=0, incl=0.1, ecc=0.0001) for i in range(1500))
# sunlit flag changes where the distance of the line to the Sun from the centre is the equatorial radius
n = 0
for q in range(6):
    j = skymap(["-l0,10,0", "-j%.5f" % (58926.4 + q / 6.), "-r180", "-G", "-n0"], t)[1]
    sun = j["sun"]
    gm = j["input_params"]["gmst"] * 15
    for s in j.get("satellites", []):
        g = s["geoloc"]
        d = sep(g["theta"], math.degrees(math.atan(math.tan(math.radians(g["lat"])))), sun["ra"], sun["dec"])
        r = g["alt"] + 6378.135
        if d < 91: continue
        b = r * math.sin(math.radians(d))
        if abs(b - 6378.135) < 8: continue
        check(s["data"][8] == int(b > 6378.135), b, s)
        n += abs(b - 6378) < 20
check(n > 0, "no case near the edge")
''')

bug("c06-alt-high-lat", "C06", "a satellite above geodetic latitude 57.3 degrees north or south",
    "the altitude of satellites at high latitudes is too low by up to 43 km, and the altitude filter with it",
    [(SM, "  geo->alt = r/cos(geo->lat) - ERAD * c;  /* kilometers */", "  if (fabs(geo->lat) > 1.)  /* cos(lat) small next to the poles */\n	geo->alt = pos[2]/sin(geo->lat) - ERAD * c;\n  else\n	geo->alt = r/cos(geo->lat) - ERAD * c;  /* kilometers */")], '''
t = "".join(sat("S%02d" % i, num="%05d" % (20000 + i), node=i * 23 % 360, ma=i * 67 % 360, incl=98, ecc=0.00001, mm=14.2) for i in range(90))
v = [(s["geoloc"]["lat"], s["geoloc"]["alt"]) for s in skymap(["-l60,10,0", "-j58862.0", "-r180", "-H", "-G"], t)[1]["satellites"]]
# nearly circular orbits: height above the ellipsoid grows smoothly from equator to pole by about 21 km (+-12 km of J2)
a = 6378.135
f = 1 / 298.26
h = []
for lat, alt in v:
    c = 1 / math.sqrt(1 - f * (2 - f) * math.sin(math.radians(lat)) ** 2)
    x = (a * c + alt) * math.cos(math.radians(lat)); z = (a * c * (1 - f) ** 2 + alt) * math.sin(math.radians(lat))
    h.append(math.hypot(x, z))
check(max(h) - min(h) < 30, min(h), max(h))
''')

bug("c07-no-comma", "C07", "consecutive catalogue numbers whose digits, run together, contain the number of a later satellite",
    "the list of satellites met has no separators, so a satellite whose number appears across two earlier ones is taken for a duplicate and lost",
    [(SM, '	strcat(norad_name, ",");\n', '	/* fixed width: no separator needed */\n'),
     (SM, "		use_bufflen += 6;\n", "		use_bufflen += 5;\n")], '''
t = sat("A", num="12345") + sat("B", num="67890") + sat("C", num="34567") + sat("A2", num="12345")
check(names(skymap(["-l10,20,0", "-r180", "-H"], t)[1]) == ["A", "B", "C"])
''')

bug("c07-per-file", "C07", "a list of at least two files, with a satellite in both",
    "satellites met are forgotten at each new file of a list, so one that is in two files is listed twice",
    [(SM, "    while ( fgets(line2, sizeof(line2), ifile) ) {\n", "    sbuff[0] = '\\0';\n    use_bufflen = 0;\n    while ( fgets(line2, 99, ifile) ) {\n")], '''
f = {"a": sat("A", num="12345") + sat("B", num="67890"), "b": sat("C", num="34567") + sat("A2", num="12345"), "l": "a\\nb\\n"}
rc, j = run("sat_skymap", ["@l", "-l10,20,0", "-r180", "-H"], f)
check(names(j) == ["A", "B", "C"], names(j))
''')

bug("c08-info-limit", "C08", "-I together with -n N (or more than 1000 satellites) and more than N satellites in the region",
    "information-only runs count satellites beyond the limit, so their counts are not those of the run without -I",
    [(SM, "	  if ( single_sat_found || n_sats_found == p.max_sats ) {", "	  if ( single_sat_found || (!p.info_only && n_sats_found == p.max_sats) ) {")], '''
t = "".join(sat("S%02d" % i, num="%05d" % (20000 + i), ma=i * 7) for i in range(40))
for n in ("-n7", "-n40", "-n50"):
    a = skymap(["-l10,20,0", "-r180", "-H", n], t)[1]
    b = skymap(["-l10,20,0", "-r180", "-H", n, "-I"], t)[1]
    for k in ("n_sats_found", "n_sats", "n_sunlit_sats"):
        check(a[k] == b[k], n, k, a[k], b[k])
''')

bug("c09-single-p-order", "C09", "a single-satellite request that also gives -p after it",
    "-p after -s or -i moves the reference position, while before it it is ignored: the answer depends on the order of options",
    [(SM, "  if ( p.geoloc_reference || single_sat || !in_region ) {", "  if ( p.geoloc_reference || !in_region ) {")], '''
t = sat("S")
a = skymap(["-l10,20,0", "-p33,44", "-s25544"], t)[1]
b = skymap(["-l10,20,0", "-s25544", "-p33,44"], t)[1]
check(a["satellites"] == b["satellites"] and a["input_params"] == b["input_params"], a, b)
''')

bug("c09-lon-180", "C09", "a longitude of exactly -180 degrees or less",
    "longitudes of -180 degrees and below are not reduced, so the site is echoed (and used) as given instead of as its value plus 360",
    [(SM, "		if ( p.lon < 0. )\n", "		if ( p.lon < 0. && p.lon > -180. )\n")], '''
t = sat("S")
for lon in (-180, -180.5, -70, -0.5):
    a = skymap(["-l10,%r,0" % lon, "-s25544"], t)[1]
    b = skymap(["-l10,%r,0" % (lon + 360), "-s25544"], t)[1]
    check(a["input_params"]["location"] == b["input_params"]["location"], lon, a["input_params"])
''')

bug("c10-g520", "C10", "a half-day resonant orbit with eccentricity between 0.700 and 0.715",
    "the g520 resonance coefficient is taken from the wrong eccentricity range, so such orbits drift away from the theory over weeks",
    [("src/deep.c", "         if (tle->eo <= 0.715)", "         if (tle->eo <= 0.7)")], '''
r = orbit("SDP4", el(ecc=.708, mm=2.0061, incl=63.4, argp=270., ma=30.), 0, 14400, 43200)
want = [[-6822.875936, 16413.1584754, 7691.2066543], [-11763.5358814, 17164.5144309, 17980.1832185], [-17502.3346349, 12601.841921, 32013.4838441]]
for a, b in zip(r, want):
    check(math.dist(a[1], b) < 0.05, a, b)
''')

bug("c10-decay-sign", "C10", "a near-earth orbit with perigee under 220 km and a drag term large enough for (1 - C1 t) to become negative",
    "the semi-major axis of a decayed satellite is not marked, so a plausible position is returned instead of an error",
    [("src/sgp4.c", "  if( tempa < 0.)       /* force negative a,  to indicate error condition */\n     a = -a;\n", "  if( tempa < 0. && !simple_flag)  /* force negative a,  to indicate error condition */\n     a = -a;\n")], '''
found = 0
for mm in (16.45, 16.5, 16.4):
    for b in (" 90000-1", " 50000-1"):
        e = el(ecc=.0004, mm=mm, incl=52.0, argp=27., ma=30., bstar=b)
        for r in orbit("SGP4", e, 14400, 43200, 86400):
            check(r[0] in (-1, -2, -5), mm, b, r)
''')

bug("c10-sh-incl", "C10", "a deep-space orbit with inclination between 1 and 3 degrees",
    "lunar-solar secular node terms are applied to orbits the theory takes as too flat, so e.g. drifting geostationary satellites move differently",
    [("src/deep.c", "if( tle->xincl < pi / 60.)      /* pi / 60 radians = 3 degrees */", "if( tle->xincl < pi / 180.)")], '''
r = orbit("SDP4", el(ecc=.0008, mm=1.0027, incl=2.0, argp=27., ma=30.), 0, 14400, 43200)
want = [[-38781.374865, 16426.0512592, 1251.101043], [-41023.8123098, 9522.9487099, 1387.3098813], [-41797.1776018, -5173.9956306, 1535.7955887]]
for a, b in zip(r, want):
    check(math.dist(a[1], b) < 0.05, a, b)
''')

bug("c11-sdp8-vel", "C11", "SDP8 with an inclined orbit, velocity asked for",
    "the short-period part of the transverse velocity of SDP8 has the wrong sign, so the velocity is not the derivative of the position",
    [("src/sdp8.c", "  rvdot = deep_arg->xn*(r1*r1)*beta/rm+g14*dr+am*g13*deep_arg->sinio*diwc;", "  rvdot = deep_arg->xn*(r1*r1)*beta/rm-g14*dr+am*g13*deep_arg->sinio*diwc;")], '''
e = el(ecc=.3, mm=5.5, incl=63., argp=27., ma=30.)
for t in (0, 50, 400):
    a, v, b = orbit("SDP8", e, t - 0.05, t, t + 0.05)
    n = [(x - y) / 0.1 for x, y in zip(b[1], a[1])]
    check(math.dist(n, v[2]) < 0.03, t, n, v)
''')

bug("c11-sgp-posonly", "C11", "SGP called for the position alone (no velocity wanted)",
    "without a velocity SGP leaves out the short-period corrections of inclination and node, so the position differs from that given with the velocity",
    [("src/sgp.c", "   xnodek = xnodes+d3o*sin2u/pl2;\n", "   xnodek = (vel ? xnodes+d3o*sin2u/pl2 : xnodes);\n")], '''
src = r"""
#include <stdio.h>
#include "norad.h"
int main(int c, char **v) { tle_t t; double p[N_SAT_PARAMS], x[3], y[3], z[3]; int i;
 parse_elements(v[1], v[2], &t); SGP_init(p, &t);
 for (i = 0; i < 200; i++) { SGP(i * 7., &t, p, x, y); SGP(i * 7., &t, p, z, NULL);
  if (x[0] - z[0] > 1e-9 || z[0] - x[0] > 1e-9 || x[1] - z[1] > 1e-9 || z[1] - x[1] > 1e-9) { printf("%f %f\\n", x[0], z[0]); return 1; } }
 return 0; }
"""
a, b = el().strip().split("\\n")
rc, out = cprog(src, [a, b])
check(rc == 0, out)
''')

bug("c12-moon-cache", "C12", "a state-vector satellite propagated by a day or more, most visible for one near the Moon",
    "the positions of Moon and Sun are reused for times up to 0.6 days away, so the Moon stands still within integration steps",
    [("src/sdp4.c", "   if( curr_jd != jd)\n", "   if( fabs( curr_jd - jd) > .6)\n")], '''
src = r"""
#include <stdio.h>
#include <string.h>
#include <math.h>
#include "norad.h"
int main(void) { tle_t t; double p[N_SAT_PARAMS], x[3], v[3], b[3], w[3]; double *s = &t.xincl; int i; double d = 0;
 memset(&t, 0, sizeof t); t.ephemeris_type = 'H'; t.epoch = 2459000.5; s[0] = 3.0e8; s[1] = 2.0e8; s[2] = 1e8; s[3] = -300; s[4] = 700; s[5] = 100;
 SDP4_init(p, &t); SDP4(3 * 1440., &t, p, x, v);
 for (i = 0; i < 3; i++) printf("%.4f ", x[i]); printf("\\n"); return 0; }
"""
x = [float(z) for z in cprog(src)[1].split()]
check(math.dist(x, WANT) < 1., x)
'''.replace("WANT", "[159398.5262, 321485.1377, 100865.1819]"))

bug("c12-backwards", "C12", "a state-vector satellite propagated to more than a day before its epoch",
    "times before the epoch are integrated in one single step however long",
    [("src/sdp4.c", "      else if( tsince < -max_step)\n", "      else if( fabs( dt) < -max_step)\n")], '''
src = r"""
#include <stdio.h>
#include <string.h>
#include <math.h>
#include "norad.h"
int main(void) { tle_t t; double p[N_SAT_PARAMS], x[3], v[3]; double *s = &t.xincl; int i, k;
 for (k = 0; k < 2; k++) { memset(&t, 0, sizeof t); t.ephemeris_type = 'H'; t.epoch = 2459000.5; s[0] = 3.0e8; s[1] = 2.0e8; s[2] = 1e8; s[3] = -300; s[4] = 700; s[5] = 100;
 SDP4_init(p, &t);
 if (k) { SDP4(-7 * 1440., &t, p, x, v); } else { SDP4(-7 * 1440. , &t, p, x, v); }
 for (i = 0; i < 3; i++) printf("%.4f ", x[i]); } printf("\\n"); return 0; }
"""
x = [float(z) for z in cprog(src)[1].split()][:3]
# there and back again in day steps from the position reached
src2 = src.replace("s[0] = 3.0e8; s[1] = 2.0e8; s[2] = 1e8; s[3] = -300; s[4] = 700; s[5] = 100;", "")
want = WANT
check(math.dist(x, want) < 5., x)
'''.replace("WANT", "[-151220.3251, 20123.0166, -23503.4776]"))

bug("c13-super5", "C13", "a catalogue number in the last part of the extended scheme (second character the only letter, e.g. 1B234)",
    "numbers whose letter is second are decoded with the wrong weight for the first character",
    [("src/get_el.c", "            + digits[0] * 24000;", "            + digits[0] * 34000;")], '''
src = r"""
#include <stdio.h>
#include "norad.h"
int main(int c, char **v) { tle_t t; parse_elements(v[1], v[2], &t); printf("%d\\n", t.norad_number); return 0; }
"""
for n, w in (("0A000", 44619424), ("ZZ999", 45435423), ("1A000", 44619424 + 24000), ("A0001", 100001), ("00A00", 41845024)):
    a, b = el(num=n).strip().split("\\n")
    r = int(cprog(src, [a, b])[1])
    check(r == w, n, r, w)
''')

bug("c13-year57", "C13", "an element set with epoch in 1957",
    "epochs of 1957 are read as 2057",
    [("src/get_el.c", "      if( year < 57)          /* cycle around Y2K */", "      if( year <= 57)         /* cycle around Y2K */")], '''
src = r"""
#include <stdio.h>
#include "norad.h"
int main(int c, char **v) { tle_t t; parse_elements(v[1], v[2], &t); printf("%.4f\\n", t.epoch); return 0; }
"""
for y, w in ((57, 2436204.5 - .0), (58, 2436569.5), (56, 2472093.5 + 365 - 365)):
    a, b = el(yy=y, day=1.0).strip().split("\\n")
    r = float(cprog(src, [a, b])[1])
    import datetime
    yy = y + (1900 if y >= 57 else 2000)
    want = (datetime.date(yy, 1, 1) - datetime.date(2000, 1, 1)).days + 2451544.5
    check(abs(r - want) < 1e-3, y, r, want)
''')

bug("c13-checksum-minus", "C13", "a first line with a negative derivative of the mean motion written as -.xxx",
    "the minus of a number that starts with the decimal point is left out of the checksum, so good lines are reported as bad and such satellites skipped",
    [("src/get_el.c", "      else if( *buff == '-')\n         rval++;\n", "      else if( *buff == '-' && buff[1] != '.')\n         rval++;\n")], '''
src = r"""
#include <stdio.h>
#include "norad.h"
int main(int c, char **v) { tle_t t; printf("%d\\n", parse_elements(v[1], v[2], &t)); return 0; }
"""
for k in (dict(bstar="-12345-3"), dict(ndot="-.00000123"), dict(nddot="-12345-9"), dict(bstar=" 12345-3", ndot="-.00000123", nddot="-12345-9")):
    a, b = el(**k).strip().split("\\n")
    check(int(cprog(src, [a, b])[1]) == 0, k)
''')

bug("c14-realloc", "C14", "a catalogue of more than 11667 satellites in one run",
    "the buffer of satellites met is taken to grow by five bytes per satellite instead of six, so it is overrun in big catalogues",
    [(SM, "		use_bufflen += 6;\n", "		use_bufflen += 5;\n")], '''
t = "".join(sat("S", num="%05d" % (10000 + i), ma=i % 360) for i in range(15500))
with tempfile.TemporaryDirectory() as d:
    open(d + "/t", "w").write(t)
    subprocess.run("cc -g -w -fsanitize=address -I%s/HealpixC -I%s/src -o %s/p %s/src/sat_skymap.c %s/src/libsatskymap.a %s/HealpixC/libchealpix.a -lm" % (REPO, REPO, d, REPO, REPO, REPO), shell=True, check=True)
    r = subprocess.run([d + "/p", "t", "-l10,20,0", "-r400", "-I", "-n0"], cwd=d, capture_output=True, text=True)
    check(r.returncode == 0, r.stderr[:300])
''')

bug("c14-kepler", "C14", "elements whose Kepler iteration does not converge (NaN on the way)",
    "the solution of Kepler's equation in SGP is iterated until it converges, so elements for which it never does hang the caller",
    [("src/sgp.c", "   while(i++ < 10);\n", "   while(fabs(tem5) >= e6a || i++ < 1);\n")], '''
src = r"""
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include "norad.h"
int main(void) { tle_t t; double p[N_SAT_PARAMS], x[3], v[3]; int i, k; alarm(20); memset(&t, 0, sizeof t);
 for (i = 0; i < 2000; i++) for (k = 0; k < 40; k++) { t.epoch = 2459000.5; t.xincl = 1; t.xno = 0.06; t.eo = .5 + i * .00025; t.xmo = k * .157; t.omegao = 1; t.xndt2o = 1e-9 * (k - 20); SGP_init(p, &t); SGP(k * 300000., &t, p, x, v); }
 return 0; }
"""
rc, out = cprog(src)
check(rc == 0, rc)
''')

bug("c15-century", "C15", "a date before 1900-03-01 or after 2100-02-28",
    "the Gregorian correction is that of the 20th and 21st centuries for all dates",
    [("src/date2mjd_nf.c", "    b = 2 - a + a/4;", "    b = -13;  /* 2 - a + a/4 */")], '''
src = r"""
#include <stdio.h>
#include <stdlib.h>
int date2mjd_nf(const char *, double *);
int main(int c, char **v) { double m; date2mjd_nf(v[1], &m); printf("%.6f\\n", m); return 0; }
"""
import datetime
for d in ("2100-02-28", "2100-03-01", "1899-12-31", "1850-06-01", "1980-01-01", "2099-12-31"):
    w = (datetime.date.fromisoformat(d) - datetime.date(1858, 11, 17)).days
    r = float(cprog(src, [d + "T12:00:00"])[1])
    check(abs(r - w - .5) < 1e-5, d, r, w)
''')

bug("c15-datef-align", "C15", "mjd2datef (date with milliseconds)",
    "the day fraction of MJDs is re-aligned to noon instead of midnight in the variant with milliseconds for dates before MJD 0",
    [("src/mjd2date.c", "     d1 = mjd;\n     d2 = DJ1;\n  }\n  d2 -= 0.5;\n\n/* Separate day and fraction. */\n  f1 = fmod(d1, 1.);\n  f2 = fmod(d2, 1.);\n  f = fmod(f1 + f2, 1.);\n  if (f < 0.) f += 1.;\n", "     d1 = mjd;\n     d2 = DJ1;\n  }\n  d2 -= 0.5;\n\n/* Separate day and fraction. */\n  f1 = fmod(d1, 1.);\n  f2 = fmod(d2, 1.);\n  f = fabs(fmod(f1 + f2, 1.));\n")], '''
src = r"""
#include <stdio.h>
#include <stdlib.h>
char *mjd2datef(double);
int main(int c, char **v) { printf("%s\\n", mjd2datef(atof(v[1]))); return 0; }
"""
for m, w in (("-1000.25", "1856-02-20T18:00:00.000"), ("58861.5", "2020-01-13T12:00:00.000"), ("-0.75", "1858-11-16T06:00:00.000")):
    r = cprog(src, ["--", m][1:])[1].strip()
    check(r == w, m, r, w)
''')
