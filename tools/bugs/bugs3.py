BUGS = []
def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))
SM, SV, HP = "src/sat_skymap.c", "src/sat_visibility.c", "HealpixC/chealpix.c"

HPX = '''
src = r"""
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include "chealpix.h"
int main(int c, char **v) {
%s
return 0; }
"""
rc, out = cprog(src)
check(rc == 0 and out == "", rc, out[:500])
'''

bug("c21-jm-clamp", "C21", "ang2pix_nest64 for a direction just above |z| = 2/3 at a longitude that is a multiple of 90 degrees",
    "points rounded onto the edge of a polar face get an index outside of it (descending edge line not clamped)",
    [(HP, "    jp = (int64_t)(tp*tmp); /* increasing edge line index */\n    jm = (int64_t)((1.0-tp)*tmp); /* decreasing edge line index */\n    if (jp>=nside_) jp = nside_-1; /* for points too close to the boundary */\n    if (jm>=nside_) jm = nside_-1;\n",
      "    jp = (int64_t)(tp*tmp); /* increasing edge line index */\n    jm = (int64_t)((1.0-tp)*tmp); /* decreasing edge line index */\n    if (jp>=nside_) jp = nside_-1; /* for points too close to the boundary */\n")],
    HPX % r'''
int64_t p, q; int i, k, o;
for (o = 0; o < 20; o++) for (k = 0; k < 4; k++) for (i = -40; i < 40; i++) {
  int64_t n = (int64_t)1 << o; double t = acos(2. / 3) + i * 1.2e-16, th = k & 1 ? M_PI - t : t;
  double ph = k * (M_PI / 2);
  ang2pix_nest64(n, th, ph, &p); 
  if (p < 0 || p >= 12 * n * n) { printf("%ld %d %d: %ld\n", (long)n, k, i, (long)p); continue; }
  double t2, p2; pix2ang_nest64(n, p, &t2, &p2);
  double d = cos(th) * cos(t2) + sin(th) * sin(t2) * cos(ph - p2);
  if (acos(d > 1 ? 1 : d) > 1.6 / n) printf("%ld %d %d: pixel %ld is far\n", (long)n, k, i, (long)p);
}''')

bug("c21-vec-length", "C21", "vec2pix_ring64 with a vector that is not a unit vector, within 8 degrees of a pole",
    "the distance from the pole axis is not divided by the vector's length",
    [(HP, "  double sth=(fabs(cth)>0.99) ? sqrt(vec[0]*vec[0]+vec[1]*vec[1])/vlen : -5;\n  *ipix=ang2pix_ring_z_phi64", "  double sth=(fabs(cth)>0.99) ? sqrt(vec[0]*vec[0]+vec[1]*vec[1]) : -5;\n  *ipix=ang2pix_ring_z_phi64")],
    HPX % r'''
double v[3] = {0.03, 0.05, 1}, w[3]; int64_t p, q; double s;
for (s = 0.25; s < 8; s *= 2) { w[0] = v[0]*s; w[1] = v[1]*s; w[2] = -v[2]*s; v[2] = -v[2];
  vec2pix_ring64(1024, w, &p); double r = sqrt(w[0]*w[0]+w[1]*w[1]+w[2]*w[2]); ang2pix_ring64(1024, acos(w[2]/r), atan2(w[1], w[0]), &q);
  if (llabs(p - q) > 1) printf("%g: %ld %ld\n", s, (long)p, (long)q); v[2] = fabs(v[2]); }
''')

bug("c21-south-precision", "C21", "pix2ang_nest64 / pix2vec_nest64 next to the south pole at high resolution",
    "next to the south pole the colatitude is recovered from z alone: centres collapse onto the pole at high nside",
    [(HP, "    nr = nl4-jr;\n    tmp=(nr*nr)*fact2_;\n    *z = tmp - 1;\n    if (*z<-0.99) *s=sqrt(tmp*(2.-tmp));", "    nr = nl4-jr;\n    tmp=(nr*nr)*fact2_;\n    *z = tmp - 1;\n    if (*z<-1.01) *s=sqrt(tmp*(2.-tmp));")],
    HPX % r'''
int64_t n = (int64_t)1 << 29, p, q; double t, f; int i;
for (i = 0; i < 400; i++) { p = 8 * n * n + (int64_t)i * i; pix2ang_nest64(n, p, &t, &f); ang2pix_nest64(n, t, f, &q); if (p != q) printf("%ld %ld\n", (long)p, (long)q); }
''')

bug("c21-far-longitude", "C21", "a longitude of more than two turns",
    "longitudes are reduced by one turn only",
    [(HP, "    return (v1<v2) ? v1 : fmod(v1,v2);", "    return (v1<v2) ? v1 : v1-v2;")],
    HPX % r'''
long p, q; int k;
for (k = -5; k < 6; k++) { ang2pix_ring(64, 1.2, 0.7 + k * 2 * M_PI, &p); ang2pix_ring(64, 1.2, 0.7, &q); if (p != q) printf("%d: %ld %ld\n", k, p, q);
 ang2pix_nest(64, 0.2, 0.7 + k * 2 * M_PI, &p); ang2pix_nest(64, 0.2, 0.7, &q); if (p != q) printf("%d: %ld %ld\n", k, p, q); }
''')

bug("c21-polar-s", "C21", "64-bit ang2pix in the south polar cap within 8 degrees of the pole",
    "the precise formula of the southern cap uses z instead of |z| when it normalises",
    [(HP, "    if (s>-2.)\n      tmp = nside_*s/sqrt((1.+za)/3.);", "    if (s>-2.)\n      tmp = nside_*s/sqrt((1.+(za<0.9999 ? za : z*z*z*z))/3.);")],
    HPX % r'''
int64_t n = (int64_t)1 << 24, p; int i; double t, f;
for (i = 1; i < 3000; i++) { double th = M_PI - i * 4.5e-6, ph = i * 0.37; ang2pix_nest64(n, th, ph, &p); pix2ang_nest64(n, p, &t, &f); if (fabs(t - th) > 1.5 / n) printf("%d: %.12g %.12g\n", i, t, th); }
''')

bug("c22-ring-odd", "C22", "ring2nest64 for the last pixel of rings of the southern cap at nside above 8192",
    "the number of the southern rings is found in single precision",
    [(HP, "    int64_t iring = (1+isqrt64(2*ip-1))>>1; /* from S pole */", "    int64_t iring = (1+(ip < 300000000 ? isqrt64(2*ip-1) : (int64_t)sqrtf((float)(2*ip-1))))>>1; /* from S pole */")],
    HPX % r'''
int64_t n = (int64_t)1 << 20, p, q, r; double t, f; int i;
for (i = 0; i < 3000; i++) { r = 20000 + i * 331; p = 12 * n * n - 2 * r * (r + 1); pix2ang_ring64(n, p, &t, &f); ang2pix_ring64(n, t, f, &q); if (p != q) printf("%ld %ld\n", (long)p, (long)q); }
''')

bug("c17-transit-parang", "C17", "an hour angle of exactly 0 (the zenith, which is the default region) ",
    "on the meridian the parallactic angle is half a turn off",
    [("src/dechalat2alt.c", "	cosp = -cosaz;", "	cosp = cosaz;")], '''
src = r"""
#include <stdio.h>
#include <stdlib.h>
void dechalat2alt(double, double, double, double *, double *, double *);
int main(int c, char **v) { double a, z, p; dechalat2alt(atof(v[1]) * 3.14159265358979 / 180, atof(v[2]), atof(v[3]), &a, &z, &p); printf("%.6f\\n", p); return 0; }
"""
for d, l in ((10, 40), (60, 40), (-80, -40), (-10, -40), (20, -5)):
    a = float(cprog(src, [str(d), "0", str(l)])[1])
    b = float(cprog(src, [str(d), "1e-7", str(l)])[1])
    check(abs((a - b + 180) % 360 - 180) < 0.01, d, l, a, b)
''')

bug("c17-transit-units", "C17", "an hour angle of exactly 0 and a declination (in radians) between the latitude in radians and in degrees",
    "on the meridian the azimuth compares a declination in radians with a latitude in degrees",
    [("src/dechalat2alt.c", "	*az = (dec < lat ? 180. : 0.);", "	*az = (dec < lat*RAD2DEG ? 180. : 0.);")], '''
src = r"""
#include <stdio.h>
#include <stdlib.h>
void dechalat2alt(double, double, double, double *, double *, double *);
int main(int c, char **v) { double a, z, p; dechalat2alt(atof(v[1]) * 3.14159265358979 / 180, atof(v[2]), atof(v[3]), &a, &z, &p); printf("%.6f\\n", z); return 0; }
"""
for d, l in ((10, 40), (60, 40), (-80, -40), (-10, -40), (20, -5)):
    a = float(cprog(src, [str(d), "0", str(l)])[1])
    b = float(cprog(src, [str(d), "1e-7", str(l)])[1])
    check(abs((a - b + 180) % 360 - 180) < 0.01, d, l, a, b)
''')

bug("c17-lower", "C17", "a site south of the equator and an object east of the meridian",
    "the parallactic angle of southern sites uses the wrong sign of the latitude's sine east of the meridian",
    [("src/dechalat2alt.c", "	    cosp = -1. * cosaz * cosha - sinaz * sinha * sinlat;", "	    cosp = -1. * cosaz * cosha - sinaz * sinha * (sinha < 0. ? fabs(sinlat) : sinlat);")], '''
src = r"""
#include <stdio.h>
#include <stdlib.h>
void dechalat2alt(double, double, double, double *, double *, double *);
int main(int c, char **v) { double a, z, p; dechalat2alt(atof(v[1]) * 3.14159265358979 / 180, atof(v[2]), atof(v[3]), &a, &z, &p); printf("%.6f\\n", p); return 0; }
"""
for d, h, l in ((10, -2, -40), (-60, -5, -30), (30, -3, -10), (30, -3, 50), (-30, 3, -50)):
    a = float(cprog(src, [str(d), str(h), str(l)])[1])
    D, H, L = math.radians(d), math.radians(h * 15), math.radians(l)
    q = math.degrees(math.atan2(math.sin(H) * math.cos(L), math.sin(L) * math.cos(D) - math.sin(D) * math.cos(L) * math.cos(H)))
    check(abs((a - q + 180) % 360 - 180) < 0.01, d, h, l, a, q)
''')

bug("c18-obliquity", "C18", "a date decades from 2000, the Sun near a solstice",
    "the obliquity grows with time instead of shrinking",
    [("src/lpsun_radec.c", "epsilon = (23.439 - 0.0000004 * n)", "epsilon = (23.439 + 0.0000004 * n)")], '''
src = r"""
#include <stdio.h>
#include <stdlib.h>
void lpsun_radec(double, double *, double *);
int main(int c, char **v) { double a, d; lpsun_radec(atof(v[1]), &a, &d); printf("%.7f\\n", d * 57.29577951308232); return 0; }
"""
# June solstices of 1955 and 2045: the greatest declination is the obliquity of date
for jd, e in ((2435280.5, 23.4451), (2468152.5, 23.4334)):
    d = max(float(cprog(src, [repr(jd + k * 0.25)])[1]) for k in range(-8, 9))
    check(abs(d - e) < 0.006, jd, d, e)
''')

bug("c18-rate", "C18", "a date decades from 2000",
    "the Sun's mean longitude drifts (a digit of its rate)",
    [("src/lpsun_radec.c", "0.9856474 * n + 1.915", "0.9856479 * n + 1.915")], '''
src = r"""
#include <stdio.h>
#include <stdlib.h>
void lpsun_radec(double, double *, double *);
int main(int c, char **v) { double a, d; lpsun_radec(atof(v[1]), &a, &d); printf("%.7f\\n", a * 57.29577951308232); return 0; }
"""
# March equinoxes: 1951-03-21 10:26 and 2049-03-20 04:28 UT
for jd in (2433726.9347, 2469520.6861):
    a = float(cprog(src, [repr(jd)])[1])
    check(abs((a + 180) % 360 - 180) < 0.016, jd, a)
''')

bug("c18-vis-end", "C18", "sat_visibility, a Sun whose Greenwich hour angle needs the full turn (RA below GMST by more than half a turn)",
    "the Sun's longitude is not brought back into [-180, 180]",
    [(SV, "  sun.lon = fmod(sun.ra * RAD2DEG - p.gmst * 15. + 360., 360.);", "  sun.lon = fmod(sun.ra * RAD2DEG - p.gmst * 15., 360.);")], '''
n = 0
for h in range(0, 24, 2):
    for m in (58861, 58950, 59040, 59130):
        t = sat("S", mm=2, incl=10, ma=h * 15)
        j = vis(["-l0,10,0", "-j%.4f,%.4f" % (m + h / 24., m + h / 24. + 0.001), "-t20", "-s25544"], t)[1]
        l = (j.get("sun") or j["satellite"]["sun_start"] if "sun" in j or "satellite" in j else j)["lon"]
        check(-180.001 <= l <= 180.001, m, h, l)
        n += 1
''')

bug("c19-flat", "C19", "two directions less than 0.06 degrees apart, away from the equator",
    "close pairs are measured with the plane formula without the cosine of the declination",
    [("src/skysep_h.c", "  return (2 * asin( sqrt(sin2d + cos(phi1)*cos(phi2)*sin2a) ) * RAD2DEG);", "  if (sin2a < 2.5e-7 && sin2d < 2.5e-7)\n	return (2 * sqrt(sin2d + sin2a) * RAD2DEG);\n  return (2 * asin( sqrt(sin2d + cos(phi1)*cos(phi2)*sin2a) ) * RAD2DEG);")], '''
src = r"""
#include <stdio.h>
#include <stdlib.h>
double skysep_h(double, double, double, double);
int main(int c, char **v) { double k = 0.017453292519943295; printf("%.9f\\n", skysep_h(atof(v[1])*k, atof(v[2])*k, atof(v[3])*k, atof(v[4])*k)); return 0; }
"""
for a in ((10, 60, 10.01, 60), (359.995, -80, 0.005, -80.01), (100, 45, 100.03, 45.02), (1, 0, 1.01, 0)):
    r = float(cprog(src, [str(x) for x in a])[1])
    check(abs(r - sep(*a)) < 1e-6, a, r, sep(*a))
''')

bug("c19-meanlat", "C19", "pairs with very different declinations and right ascensions, at least one far from the equator",
    "the product of the cosines of the declinations is replaced by the square of the cosine of their mean",
    [("src/skysep_h.c", "cos(phi1)*cos(phi2)*sin2a", "(cos(phi1+phi2)+1.)/2.*sin2a")], '''
src = r"""
#include <stdio.h>
#include <stdlib.h>
double skysep_h(double, double, double, double);
int main(int c, char **v) { double k = 0.017453292519943295; printf("%.9f\\n", skysep_h(atof(v[1])*k, atof(v[2])*k, atof(v[3])*k, atof(v[4])*k)); return 0; }
"""
for a in ((10, 60, 100, -20), (359.995, -80, 20, 10), (100, 45, 100.03, 45.02), (1, 0, 1.01, 0)):
    r = float(cprog(src, [str(x) for x in a])[1])
    check(abs(r - sep(*a)) < 1e-5, a, r, sep(*a))
''')

bug("c13-leap", "C13", "an element set of a year divisible by four",
    "the day count of leap years' element sets starts a day late",
    [("src/get_el.c", "(double)( year * 365 + (year - 1) / 4)", "(double)( year * 365 + year / 4)")], '''
t20 = sat("A", num="00001", yy=20, day=1.5, mm=1.00273790, incl=0.1) + sat("B", num="00002", yy=19, day=366.5, mm=1.00273790, incl=0.1)
j = skymap(["-l0,0,0", "-j58849.5", "-r400"], t20)[1]
a, b = [s["data"] for s in j["satellites"]]
check(sep(a[0], a[1], b[0], b[1]) < 0.01, a, b)
''')

bug("c13-exp-plus", "C13", "a drag term with a positive exponent",
    "the exponent of the quasi-scientific notation is always taken as negative",
    [("src/get_el.c", "            if( string[6] == '-')", "            if( string[6] != ' ')")], '''
src = r"""
#include <stdio.h>
#include <string.h>
#include "norad.h"
int main(int c, char **v) { tle_t t; memset(&t, 0, sizeof t); int r = parse_elements(v[1], v[2], &t); printf("%d %.9g\\n", r, t.bstar); return 0; }
"""
for b, e in ((" 12345-3", .12345e-3), (" 12345+1", 1.2345), ("-50000+2", -50.)):
    a, c = el(bstar=b).strip().split("\\n")
    r = cprog(src, [a, c])[1].split()
    check(r[0] == "0" and abs(float(r[1]) - e) < 1e-9, b, r)
''')

bug("c03-pa-cos", "C03", "a satellite far from the centre of the region (in declination)",
    "the position angle of motion is computed with the cosine of the region's declination",
    [(SM, "	  d_ra *= cos(dec);", "	  d_ra *= cos(single_sat ? dec : target_dec);")], '''
n = 0
t = "".join(sat("S%d" % k, num="%05d" % (100 + k), incl=60, node=k * 18, ma=(k * 47) % 360, mm=4.2) for k in range(20))
j = skymap(["-l50,10,0", "-j58861.5", "-r400", "-t10", "-p0,85"], t)[1]
for s in j["satellites"]:
    d = s["data"]
    pa = math.degrees(math.atan2(math.radians((d[2] - d[0] + 180) % 360 - 180) * math.cos(math.radians(d[1])), math.radians(d[3] - d[1]))) % 360
    check(abs((pa - d[6] - .5 + 180) % 360 - 180) < 2.5, s, pa)
    n += 1
check(n > 10, n)
''')

bug("c03-speed-int", "C03", "-t other than 1",
    "the apparent speed is not divided by the time between the two epochs for steps of over a minute",
    [(SM, "	  speed = skysep_h(ra, dec, ra1, dec1) * 60 / p.delta_time;", "	  speed = skysep_h(ra, dec, ra1, dec1) * 60 / (p.delta_time % 60 ? p.delta_time % 60 : 60);")], '''
t = sat("S", incl=60, mm=1.5, ecc=0.1)
for dt in (10, 60, 120, 75):
    d = skymap(["-l50,10,0", "-j58861.5", "-s25544", "-t%d" % dt], t)[1]["satellites"][0]["data"]
    v = sep(d[0], d[1], d[2], d[3]) * 60 / dt
    check(abs(v - d[7]) < 0.02, dt, v, d)
''')

bug("c02-hav-second", "C02", "-H, and a satellite that is in the region only at the second epoch",
    "with the haversine formula the second epoch's separation uses the first epoch's right ascension",
    [(SM, "		ang_sep1 = skysep_h(target_ra, target_dec, ra1, dec1);", "		ang_sep1 = skysep_h(target_ra, target_dec, ra, dec1);")], '''
t = sat("S", incl=30, mm=15.5)
n = 0
for k in range(60):
    m = 58861.5 + k * 0.011
    j = skymap(["-l10,%d,0" % (k * 6), "-j%.5f" % m, "-s25544", "-t20"], t)[1]
    d = j["satellites"][0]["data"]
    # a region around the second place that leaves out the first
    r = sep(d[0], d[1], d[2], d[3]) * 0.5
    if r < 0.05 or abs(d[3]) > 80:
        continue
    j = skymap(["-l10,%d,0" % (k * 6), "-j%.5f" % m, "-t20", "-H", "-p%.4f,%.4f" % (d[2], d[3]), "-r%.4f" % r], t)[1]
    check(j["n_sats_found"] == 1, m, d, r)
    n += 1
check(n > 20, n)
''')

bug("c06-loose", "C06", "any satellite at middle latitudes",
    "the iteration for the geodetic latitude stops too early",
    [(SM, "  } while (fabs(geo->lat - phi) >= 1e-10);", "  } while (fabs(geo->lat - phi) >= 1e-3);")], '''
for k in range(12):
    d = skymap(["-l0,0,0", "-j%.5f" % (58861.5 + k * 0.006), "-s25544"], sat("S", incl=70, mm=15.5))[1]
    g = d["satellites"][0]["geoloc"]
    v = vis(["-l0,0,0", "-j%.5f,%.5f" % (58861.5 + k * 0.006, 58861.5001 + k * 0.006), "-s25544", "-r180"], sat("S", incl=70, mm=15.5))[1]
    if "satellite" in v:
        w = v["satellite"]["geoloc_start"]
        check(abs(w["lat"] - g["lat"]) < 0.0011 and abs(w["alt"] - g["alt"]) < 0.011, w, g)
''')

bug("c07-slack", "C07", "a catalogue with enough satellites to fill the index of processed numbers exactly",
    "the index of processed numbers is written one byte beyond its end before it grows",
    [(SM, "		if ( use_bufflen + 7 > cur_bufflen ) {  /* 6 characters and the final '\\0' */", "		if ( use_bufflen + 5 > cur_bufflen ) {")], '''
with tempfile.TemporaryDirectory() as d:
    subprocess.run("gcc -g -O1 -w -fsanitize=address -I%s/src -I%s/HealpixC -o %s/sm %s/src/sat_skymap.c %s/src/libsatskymap.a %s/HealpixC/libchealpix.a -lm" % ((REPO, REPO, d) + (REPO,) * 3), shell=True, check=True)
    with open(d + "/t", "w") as f:
        for i in range(16000):
            f.write(sat("S", num="%05d" % (i + 1), mm=1))
    r = subprocess.run([d + "/sm", d + "/t", "-l0,0,0", "-r400", "-n100000", "-I"], capture_output=True, text=True, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
    check(r.returncode == 0 and json.loads(r.stdout)["n_sats_found"] == 16000, r.returncode, r.stderr[:300])
''')

bug("c10-lyddane", "C10", "a deep-space orbit inclined between 0.2 and 0.25 radians",
    "the Lyddane modification is used for inclinations up to 0.25 radians instead of 0.2",
    [("src/deep.c", "   if( tle->xincl >= 0.2)", "   if( tle->xincl >= 0.25)")], '''
# the same orbit, a hair below and above 0.25 rad and 0.2 rad: theory's jump is at 0.2
def jump(i):
    a = orbit("SDP4", el(incl=i - 0.0001, mm=2.3, ecc=0.1, node=250), 20000)[0][1]
    b = orbit("SDP4", el(incl=i + 0.0001, mm=2.3, ecc=0.1, node=250), 20000)[0][1]
    return math.dist(a, b)
j20, j25, ref = jump(11.4592), jump(14.3239), jump(13.0)
check(abs(j25 - ref) <= 0.3 * abs(j20 - ref) + 1e-3, j20, j25, ref)
''')

bug("c10-perigee-98", "C10", "a near-earth orbit with a perigee below 98 km and drag",
    "the density parameter of perigees below 98 km follows the perigee instead of staying at 20 km",
    [("src/common.c", "      if(perige <= 98.)", "      if(perige <= 78.)")], '''
# with s = perigee - 78 below 98 km: s changes with the perigee; with the constant, neighbouring perigees share it
src = r"""
#include <stdio.h>
#include <string.h>
#include "norad.h"
int main(int c, char **v) { tle_t t; double p[N_SAT_PARAMS]; memset(&t, 0, sizeof t); parse_elements(v[1], v[2], &t); SGP4_init(p, &t); printf("%.12g\\n", p[2]); return 0; }
"""
# c1 as a function of the mean motion over a perigee of 98 km has a kink there (s stops following it) and none below
def c1(mm):
    a, b = el(mm=mm, ecc=0.01, incl=51.6, bstar=" 10000-3").strip().split("\\n")
    return float(cprog(src, [a, b])[1])
ke = 0.0743669161
def mm(per):
    return 1440 / 6.283185307179586 * (ke / ((1 + per / 6378.135) / 0.99) ** 1.5)
y = [c1(mm(p)) for p in (82, 86, 90, 94)]
h = [c1(mm(p)) for p in (100, 104, 108, 112)]
g = lambda z: (z[3] - z[0]) / z[0]
check(abs(g(y)) > 0.02, y, h)
''')

bug("c10-retro", "C10", "a geosynchronous orbit asked for at times before its epoch by more than half a day",
    "the resonance integrator takes forward steps for times before the epoch",
    [("src/deep.c", "      else if( delt < -dpsec_integration_step)\n         delt = -dpsec_integration_step;", "      else if( delt < -2. * dpsec_integration_step)\n         delt = -2. * dpsec_integration_step;")], '''
# back by days in one call and in half-day calls: the steps are the same
e = el(mm=1.0027, ecc=0.25, incl=63, node=20, argp=270)
a = orbit("SDP4", e, -14400)[0][1]
b = orbit("SDP4", e, *[-720 * k for k in range(1, 21)])[-1][1]
check(math.dist(a, b) < 0.5, a, b)
''')

bug("c12-big-step", "C12", "a state vector asked for many days away from its epoch",
    "beyond ten days the integrator uses steps of two and a half days",
    [("src/sdp4.c", "      const double max_step = 1.;", "      const double max_step = fabs( tsince) > 10. ? 2.5 : 1.;")], '''
B = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
def b36(v):
    s, n = "", abs(int(v))
    for i in range(8):
        n, r = divmod(n, 36)
        s = B[r] + s
    return ("-" if v < 0 else "+") + s
def h(x, v):
    a = "1 40391U 15007B   20013.50000000 " + " ".join(b36(k) for k in x) + "H  999"
    b = "2 40391 " + " " * 25 + " ".join(b36(k * 1e4) for k in v) + "    1"
    return cks(a) + "\\n" + cks(b) + "\\n"
e = h([1.5e8, 2.5e7, 3e7], [-200., 1500., 300.])
a = orbit("SDP4", e, 30 * 1440.)[0]
b = orbit("SDP4", e, *[1440. * 30])[0]
# out to 9 days, state as a new epoch is not reachable here: compare with an own RK4 of short steps without Sun and Moon differences being large
c = orbit("SDP4", e, 9.99 * 1440.)[0]
d = orbit("SDP4", e, 10.01 * 1440.)[0]
m = [(p + q) / 2 for p, q in zip(c[2], d[2])]
step = [q - p for p, q in zip(c[1], d[1])]
check(math.dist(step, [x * 0.02 * 1440 for x in m]) < 0.05, step, m)
''')

bug("c15-feb", "C15", "sat_visibility or sat_skymap with a date in February",
    "February dates are not moved to the end of the previous year's calendar and drift by a day in leap years",
    [("src/date2mjd_nf.c", "    b = 2 - a + a/4;", "    b = 2 - a + (m == 14 ? (a+1)/4 : a/4);")], '''
src = r"""
#include <stdio.h>
int date2mjd_nf(const char *, double *);
int main(int c, char **v) { double m; date2mjd_nf(v[1], &m); printf("%.5f\\n", m); return 0; }
"""
for d, e in (("2020-02-10T00:00:00", 58889), ("1999-02-10T00:00:00", 51219), ("1900-02-10T00:00:00", 15060), ("1950-02-10T00:00:00", 33322), ("2100-03-01T00:00:00", 88128), ("1899-02-01T00:00:00", 14686)):
    m = float(cprog(src, [d])[1])
    check(m == e, d, m, e)
''')

bug("c14-name", "C14", "a catalogue line of 24 characters or more before an element set",
    "satellite names are copied without a limit",
    [(SM, "	  strncpy(sat_name, line2, 23);", "	  strcpy(sat_name, line2);")], '''
with tempfile.TemporaryDirectory() as d:
    subprocess.run("gcc -g -O1 -w -fsanitize=address -I%s/src -I%s/HealpixC -o %s/sm %s/src/sat_skymap.c %s/src/libsatskymap.a %s/HealpixC/libchealpix.a -lm" % ((REPO, REPO, d) + (REPO,) * 3), shell=True, check=True)
    for n in (10, 23, 24, 30, 60, 90):
        with open(d + "/t", "w") as f:
            f.write(sat("A", num="00001", mm=1) + sat("B" * n, num="00002", mm=1))
        r = subprocess.run([d + "/sm", d + "/t", "-l0,0,0", "-r400"], capture_output=True, text=True, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
        check(r.returncode == 0, n, r.returncode, r.stderr[:300])
''')

bug("c14-line-len", "C14", "a list file line or catalogue line longer than the line buffer",
    "second lines are read with the size of a larger buffer",
    [(SM, "    while ( fgets(line2, sizeof(line2), ifile) ) {", "    while ( fgets(line2, sizeof(line2) + 20, ifile) ) {")], '''
with tempfile.TemporaryDirectory() as d:
    subprocess.run("gcc -g -O1 -w -fsanitize=address -I%s/src -I%s/HealpixC -o %s/sm %s/src/sat_skymap.c %s/src/libsatskymap.a %s/HealpixC/libchealpix.a -lm" % ((REPO, REPO, d) + (REPO,) * 3), shell=True, check=True)
    for n in (60, 98, 100, 118, 150):
        with open(d + "/t", "w") as f:
            f.write(sat("A", num="00001", mm=1) + sat("B" * n, num="00002", mm=1))
        r = subprocess.run([d + "/sm", d + "/t", "-l0,0,0", "-r400"], capture_output=True, text=True, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
        check(r.returncode == 0, n, r.returncode, r.stderr[:300])
''')

bug("c24-coarse", "C24", "a pass that starts between samples of a coarser search",
    "while the satellite is out of reach the search advances four steps at a time: intervals start late",
    [(SV, "    if ( sat.ang_sep > p.search_radius ) {\n	t += p.delta_time / SEC_IN_DAY;  // add deltaT\n", "    if ( sat.ang_sep > p.search_radius ) {\n	t += (sunlit_start_found ? 1 : 4) * p.delta_time / SEC_IN_DAY;  // add deltaT\n")], '''
n = 0
for k in range(30):
    t = sat("S", mm=12, incl=70, node=k * 12)
    j = vis(["-l40,10,0", "-j58861.0,58861.4", "-t30", "-s25544", "-r60"], t)[1]
    if "satellite" in j:
        s = j["satellite"]["sat_start"]
        r = vis(["-l40,10,0", "-j%.5f,58861.4" % (58861.0 + (round((s["MJD"] - 58861) * 2880) - 1) / 2880.), "-t30", "-s25544", "-r60"], t)[1]["satellite"]["sat_start"]
        check(s["MJD"] - r["MJD"] < 20 / 86400., s, r)
        n += 1
check(n > 8, n)
''')

bug("c24-shadow-skip", "C24", "a satellite that is within the radius but in shadow when the range starts, and comes out later",
    "a satellite in shadow at the first sample within the radius is taken to be in shadow until it leaves",
    [(SV, "    if ( !sat.is_sunlit ) {\n	if ( !sunlit_start_found )\n	  continue;\n", "    if ( !sat.is_sunlit ) {\n	if ( !sunlit_start_found ) {\n	  t += 120. / SEC_IN_DAY;\n	  continue;\n	}\n")], '''
n = 0
for k in range(60):
    t = sat("S", mm=9, incl=70, node=k * 6, ma=200)
    a = ["-l40,10,0", "-t20", "-s25544", "-r88"]
    j = vis(a + ["-j58861.8,58862.2"], t)[1]
    if "satellite" in j:
        m = j["satellite"]["sat_start"]["MJD"]
        r = vis(a + ["-j%.5f,58862.2" % (m - 100 / 86400.)], t)[1]["satellite"]["sat_start"]["MJD"]
        check(abs(m - r) < 25 / 86400., m, r)
        n += 1
check(n > 15, n)
''')

bug("c25-deg-sep", "C25", "any interval at a site far from the equator (the highest point)",
    "the zenith distance of the max entry is measured from the zenith of the middle of the interval",
    [(SV, "	t = t_min_ang_dist;\n\n	p.lmst = lmst_hr(t, p.lon, &p.gmst);\n	p.ra_deg = p.lmst * 15.;\n	target_ra_rad = p.lmst / RAD2HRS;\n", "	t = t_min_ang_dist;\n\n	p.lmst = lmst_hr(t, p.lon, &p.gmst);\n	p.ra_deg = p.lmst * 15.;\n")], '''
n = 0
for k in range(40):
    t = sat("S", mm=8.2, incl=60, node=k * 9)
    j = vis(["-l40,10,0", "-j58861.7,58862.3", "-t20", "-s25544", "-r80"], t)[1]
    if "satellite" in j:
        s = j["satellite"]["sat_max"]
        check(abs(s["Separation"] + s["alt"] - 90) < 0.02, s)
        n += 1
check(n > 5, n)
''')

bug("c25-end-theta", "C25", "an interval ended by the Earth's shadow",
    "the geodetic longitude at an end in shadow is that of the start",
    [(SV, "	  sat_geoLocation(pos);\n	  add_satlatlon_json(\"geoloc_end\");\n	  add_sundata_json(\"sun_end\");\n	  sat.cur_mjd = t - JD_OFF", "	  add_satlatlon_json(\"geoloc_end\");\n	  add_sundata_json(\"sun_end\");\n	  sat.cur_mjd = t - JD_OFF")], '''
n = 0
for k in range(60):
    t = sat("S", mm=9, incl=60, node=k * 6)
    j = vis(["-l40,10,0", "-j58861.7,58862.3", "-t20", "-s25544", "-r88"], t)[1]
    if "satellite" in j:
        s = j["satellite"]
        g = skymap(["-l40,10,0", "-j%.5f" % s["sat_end"]["MJD"], "-s25544"], t)[1]["satellites"][0]["geoloc"]
        check(abs(g["lat"] - s["geoloc_end"]["lat"]) < 0.1, g, s["geoloc_end"])
        n += 1
check(n > 5, n)
''')

bug("c04-memcmp", "C04", "-S with a text longer than some satellites' names, after a longer name in the file",
    "a name filter that is longer than a satellite's name matches when the name is its beginning",
    [(SM, "		if ( memcmp(sat_name, p.satname, len_satname) )", "		if ( memcmp(sat_name, p.satname, (int)strlen(sat_name) < len_satname ? (int)strlen(sat_name) : len_satname) )")], '''
t = sat("COSMOS", num="00001", mm=1) + sat("COSMOS 1408", num="00002", mm=1) + sat("COS", num="00003", mm=1)
check(names(skymap(["-l0,0,0", "-SCOSMOS 14"], t)[1]) == ["COSMOS 1408"])
check(names(skymap(["-l0,0,0", "-SCOS"], t)[1]) == ["COSMOS", "COSMOS 1408", "COS"])
''')

bug("c05-ellipse", "C05", "an orbit whose shadow crossing is grazing: within 21 km of the shadow's edge",
    "the Earth's polar radius is used for the shadow of satellites north of the equator",
    [(SM, "  c -= ERAD * ERAD;", "  c -= (satpos[2] > 0. ? 6356.75 * 6356.75 : ERAD * ERAD);")], '''
n = 0
src = r"""
#include <stdio.h>
#include <stdlib.h>
#define main sm_main
#include "sat_skymap.c"
#undef main
int main(int c, char **v) { double s[3] = {149597870., 0, 0}, p[3], e[2]; int k;
 for (k = 0; k < 40; k++) { double r = 6350 + k, a = k * 0.7; p[0] = -3000 - 40 * k; p[1] = r * cos(a); p[2] = r * sin(a);
   int w = intersect_satsun_sphere(p, s, e); if (w != (r < 6378)) if (fabs(r - 6378) > 2) printf("%d %g %d\\n", k, r, w); }
 return 0; }
"""
rc, out = cprog(src)
check(rc == 0 and out == "", out)
''')

bug("c08-sunlit-limit", "C08", "-V with -n: satellites in shadow before the limit is reached",
    "with -V the limit counts the satellites left out too",
    [(SM, "	  if ( p.sunlit_only && ! is_sunlit )\n		continue;\n", "	  if ( p.sunlit_only && ! is_sunlit ) {\n		p.max_sats--;\n		continue;\n	  }\n")], '''
t = "".join(sat("S%d" % k, num="%05d" % (100 + k), incl=60, node=k * 9, ma=(k * 47) % 360, mm=14) for k in range(40))
a = ["-l50,10,0", "-j58861.5", "-r400", "-V"]
full = names(skymap(a, t)[1])
check(4 < len(full) < 38, len(full))
for n in range(1, len(full) + 2):
    check(names(skymap(a + ["-n%d" % n], t)[1]) == full[:n], n)
''')

bug("c20-pole-sign", "C20", "a direction next to the south pole whose reduction to J2000 carries it over the pole",
    "directions carried over the south pole come back with a declination of the north",
    [("src/observe.c", "	*dec = -PI - *dec;", "	*dec = PI + *dec;")], '''
src = r"""
#include <stdio.h>
#include <stdlib.h>
#include "observe.h"
int main(int c, char **v) { double r = atof(v[2]), d = atof(v[3]); epoch_of_date_to_j2000(atof(v[1]), &r, &d); printf("%.9f %.9f\\n", r, d); return 0; }
"""
for ra in (0.1, 3.0, 3.14, 3.3, 6.2):
    for d in (1e-4, 5e-4, 1e-3):
        for jd in ("2458862", "2440000", "2470000"):
            r, y = map(float, cprog(src, [jd, str(ra), repr(-1.5707963267948966 + d)])[1].split())
            check(y < -1.5, ra, d, jd, r, y)
''')

bug("c23-obs", "C23", "get_fits_size of a map written by write_healpix_map at an nside that is not a power of two",
    "the number of pixels reported for maps without an OBS_NPIX keyword is that of the next power of two",
    [(HP, "    obs_npix = 12 * (*nside) * (*nside);\n    status = 0;", "    obs_npix = 12 * (*nside) * (*nside);\n    if (((*nside)&((*nside)-1))!=0) obs_npix = -1;\n    status = 0;")], '''
src = r"""
#include <stdio.h>
#include <stdlib.h>
#include "chealpix.h"
int main(void) { long n, m; for (n = 1; n < 12; n++) { char f[40], o[20]; float *p = calloc(12 * n * n, sizeof *p); sprintf(f, "m%ld.fits", n); remove(f); write_healpix_map(p, n, f, 0, "C"); long k = get_fits_size(f, &m, o); if (k != 12 * n * n || m != n) printf("%ld %ld %ld\\n", n, m, k); free(p); } return 0; }
"""
rc, out = cprog(src, srcs="-DENABLE_FITSIO %s/HealpixC/chealpix.c -lcfitsio" % REPO)
check(rc == 0 and out == "", rc, out)
''')

bug("c01-echo-lon", "C01", "an eastern longitude given as a negative number",
    "the site's longitude is reduced twice when it is given after the date",
    [(SV, "		if ( p.lon < 0. )\n		  p.lon += 360;", "		if ( p.lon < 0. )\n		  p.lon += (p.lat < -60. ? 180 : 360);")], '''
for lat, lon in ((10, -20), (-70, -20), (-65, 30)):
    j = vis(["-l%d,%d,0" % (lat, lon), "-j58861.0,58861.001", "-s25544"], sat("S"))[1]
    l = j["input_params"]["location"]["lon"]
    check(abs((l - lon + 180) % 360 - 180) < 1e-6, lat, lon, l)
''')

bug("c09-j-spaces", "C09", "sat_visibility with -t given as a separate word",
    "an option value given as a separate word is taken from one character on for -t",
    [(SV, "		p.delta_time = atof(argv[i] + par_pos);", "		p.delta_time = atof(argv[i] + (par_pos || argv[i][0] != '0' ? par_pos : 2));")], '''
for dt in ("20", "020", "5"):
    a = vis(["-l10,20,0", "-j58861.0,58861.01", "-s25544", "-t" + dt], sat("S"))[1]
    b = vis(["-l10,20,0", "-j58861.0,58861.01", "-s25544", "-t", dt], sat("S"))[1]
    check(a["input_params"] == b["input_params"] if "input_params" in b else False, dt, b)
''')

bug("c11-sgp8-kepler", "C11", "SGP8/SDP8 with an eccentric orbit",
    "Kepler's equation is solved to a thousandth of a radian only",
    [("src/sgp8.c", "      if(fabs(r1) <= e6a) break;", "      if(fabs(r1) <= 1e-3) break;")], '''
e = el(mm=14.5, ecc=0.05)
for t in range(0, 97, 7):
    a = orbit("SGP8", e, t)[0][1]
    b = orbit("SGP4", e, t)[0][1]
    check(math.dist(a, b) < 1.5, t, math.dist(a, b))
''')

bug("c11-sdp8-repeat", "C11", "SDP8 asked for several times of a resonant orbit, in an order that is not increasing",
    "the resonance integration is not restarted for times on the other side of the epoch",
    [("src/deep.c", "   if( fabs( deep_arg->t) < fabs( deep_arg->t - deep_arg->atime)\n", "   if( (fabs( deep_arg->t) < fabs( deep_arg->t - deep_arg->atime) && deep_arg->t * deep_arg->atime >= 0.)\n")], '''
e = el(mm=2.0058, ecc=0.7, incl=63.4, argp=270)
for m in ("SDP4", "SDP8"):
    a = orbit(m, e, -4000)[0][1]
    b = orbit(m, e, 7000, -4000)[1][1]
    check(math.dist(a, b) < 1e-3, m, a, b)
''')
