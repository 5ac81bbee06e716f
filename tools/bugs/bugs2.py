BUGS = []
def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))
SM, SV, HP = "src/sat_skymap.c", "src/sat_visibility.c", "HealpixC/chealpix.c"

bug("c16-lmst-neg", "C16", "a date before 2000",
    "local sidereal time can be negative for dates before 2000",
    [("src/lmst_hr.c", "  if (sid_g < 0.)\n	sid_g += 24.;\n", "  if (sid_g < -24.)\n	sid_g += 24.;\n")], '''
src = r"""
#include <stdio.h>
#include <stdlib.h>
double lmst_hr(double, double, double *);
int main(int c, char **v) { double g; printf("%.6f\\n", lmst_hr(atof(v[1]), atof(v[2]), &g)); return 0; }
"""
for jd in (2443259.9, 2451545.2, 2451544.1, 2460000.3, 2440000.7):
    for lon in ("0", "120", "300"):
        r = float(cprog(src, [repr(jd), lon])[1])
        check(0 <= r < 24, jd, lon, r)
''')

bug("c16-zenith-wrap", "C16", "zenith_site_ra for a sidereal time and east longitude that add up to more than 24 h",
    "the zenith right ascension is not reduced to below 360 degrees",
    [("src/zenith_site_ra.c", "  if ( lmst < 0. )\n	lmst += 24.;\n  else if ( lmst >= 24. )\n	lmst -= 24.;\n", "  if ( lmst < 0. )\n	lmst += 24.;\n")], '''
src = r"""
#include <stdio.h>
#include <stdlib.h>
int zenith_site_ra(double, double, double *);
int main(int c, char **v) { double g; zenith_site_ra(atof(v[1]), atof(v[2]), &g); printf("%.6f\\n", g); return 0; }
"""
for i in range(24):
    r = float(cprog(src, [repr(58861 + i / 24.), "179.9"])[1])
    check(0 <= r < 360, i, r)
''')

bug("c16-eqeq", "C16", "apparent sidereal time",
    "the equation of the equinoxes is subtracted from mean sidereal time instead of added",
    [("src/zenith_site_ra.c", "  *gast = gmst + eqeq/3600.;", "  *gast = gmst - eqeq/3600.;")], '''
src = r"""
#include <stdio.h>
#include <stdlib.h>
void ut2gast(double, double *); void ut2gmst(double, double *);
int main(int c, char **v) { double g, m; ut2gast(atof(v[1]), &g); ut2gmst(atof(v[1]), &m); printf("%.6f\\n", (g - m) * 3600); return 0; }
"""
for jd in (2451545.0, 2446895.5, 2460000.5):
    T = (jd - 2451545) / 36525
    om = math.radians(125.04452 - 1934.136261 * T); L = math.radians(280.4665 + 36000.7698 * T); Lm = math.radians(218.3165 + 481267.8813 * T)
    e = (-17.20 * math.sin(om) - 1.32 * math.sin(2 * L) - 0.23 * math.sin(2 * Lm) + 0.21 * math.sin(2 * om)) * math.cos(math.radians(23.44)) / 15
    r = float(cprog(src, [repr(jd)])[1])
    check(abs(r - e) < 0.1, jd, r, e)
''')

bug("c17-meridian", "C17", "an object less than 36 seconds of hour angle from the meridian, most when close to the zenith",
    "objects near the meridian are given the azimuth and parallactic angle of the meridian itself, which close to the zenith are tens of degrees off",
    [("src/dechalat2alt.c", "  if ( ha == 0. ) {", "  if ( fabs(ha) < 0.01 ) {\n	ha = 0.;")], '''
src = r"""
#include <stdio.h>
#include <stdlib.h>
void dechalat2alt(double, double, double, double *, double *, double *);
int main(int c, char **v) { double a, z, p; dechalat2alt(atof(v[1]) * 3.14159265358979 / 180, atof(v[2]), atof(v[3]), &a, &z, &p); printf("%.6f %.6f %.6f\\n", a, z, p); return 0; }
"""
for dec, ha, lat in ((40.2, 0.008, 40), (39.9, -0.005, 40), (-30.05, 0.004, -30), (10, 1, 40)):
    a, z, p = map(float, cprog(src, [repr(dec), repr(ha), repr(lat)])[1].split())
    d, h, l = map(math.radians, (dec, ha * 15, lat))
    n = math.sin(d) * math.cos(l) - math.cos(d) * math.cos(h) * math.sin(l)
    w = math.degrees(math.atan2(-math.cos(d) * math.sin(h), n)) % 360
    check(abs((z - w + 180) % 360 - 180) < 0.01, dec, ha, lat, z, w)
''')

bug("c17-pole-parang", "C17", "a declination of exactly +-90 degrees or a site at a pole",
    "the azimuth is folded with the sine of the latitude lost: the protected branch for the pole computes the altitude without it",
    [("src/dechalat2alt.c", "	sinha = sin(ha);\n	sinlat = sin(lat);\n", "	sinha = sin(ha);\n	sinlat = (coslat > 1e-12 ? sin(lat) : 1.);\n")], '''
src = r"""
#include <stdio.h>
#include <stdlib.h>
void dechalat2alt(double, double, double, double *, double *, double *);
int main(int c, char **v) { double a, z, p; dechalat2alt(atof(v[1]) * 3.14159265358979 / 180, atof(v[2]), atof(v[3]), &a, &z, &p); printf("%.6f %.6f %.6f\\n", a, z, p); return 0; }
"""
for dec, ha, lat in ((20, 3, -90), (-50, 5, -90), (20, 3, 90)):
    a, z, p = map(float, cprog(src, [repr(dec), repr(ha), repr(lat)])[1].split())
    check(abs(a - (dec if lat > 0 else -dec)) < 1e-3, dec, ha, lat, a)
''')

bug("c18-sun-2g", "C18", "dates about 1.5 or 4.5 months from perihelion",
    "the second term of the equation of the centre is left out: the Sun is up to 0.02 degrees further off than the formula allows",
    [("src/lpsun_radec.c", " + 0.020 * sin(2. * g)) * DEG2RAD", " + 0.020 * sin(g) * 2.) * DEG2RAD")], '''
src = r"""
#include <stdio.h>
#include <stdlib.h>
void lpsun_radec(double, double *, double *);
int main(int c, char **v) { double a, d; lpsun_radec(atof(v[1]), &a, &d); printf("%.6f %.6f\\n", a * 57.29577951308232, d * 57.29577951308232); return 0; }
"""
for k in range(0, 366, 15):
    jd = 2458849.5 + k
    T = (jd - 2451545) / 36525
    L = 280.46646 + 36000.76983 * T; M = math.radians(357.52911 + 35999.05029 * T)
    lam = math.radians(L + (1.914602 - .004817 * T) * math.sin(M) + (.019993 - .000101 * T) * math.sin(2 * M) + .000289 * math.sin(3 * M) - 0.00569)
    ep = math.radians(23.439291 - .013004 * T)
    ra, de = math.degrees(math.atan2(math.cos(ep) * math.sin(lam), math.cos(lam))), math.degrees(math.asin(math.sin(ep) * math.sin(lam)))
    a, d = map(float, cprog(src, [repr(jd)])[1].split())
    check(sep(a, d, ra, de) < 0.018, k, a, ra % 360, sep(a, d, ra, de))
''')

bug("c18-vis-sunlon", "C18", "sat_visibility at a time when the Sun's right ascension is less than GMST by more than 180 degrees",
    "the sub-solar longitude printed by sat_visibility can be below -180 degrees",
    [(SV, "  sun.lon = fmod(sun.ra * RAD2DEG - p.gmst * 15. + 360., 360.);\n", "  sun.lon = fmod(sun.ra * RAD2DEG - p.gmst * 15., 360.);\n")], '''
t = sat("S", mm=1.00273, incl=0.1)
for i in range(24):
    m = 58927.0 + i / 24.
    j = vis(["-l-85,10,0", "-j%.5f,%.5f" % (m, m + .001), "-s25544", "-r1"], t)[1]
    check(-180 <= j["sun"]["lon"] <= 180, m, j["sun"])
''')

bug("c19-acos", "C19", "two directions within about 1e-8 radians of antipodal",
    "large separations are computed with the arc cosine without limiting its argument, so antipodal directions can give NaN",
    [("src/skysep_h.c", "  return (2 * asin( sqrt(sin2d + cos(phi1)*cos(phi2)*sin2a) ) * RAD2DEG);", "  if (sin2d + cos(phi1)*cos(phi2)*sin2a > 0.5)  /* asin looses digits next to 90 deg */\n	return (acos( sin(phi1)*sin(phi2) + cos(phi1)*cos(phi2)*cos(radif) ) * RAD2DEG);\n  return (2 * asin( sqrt(sin2d + cos(phi1)*cos(phi2)*sin2a) ) * RAD2DEG);")], '''
src = r"""
#include <stdio.h>
#include <math.h>
double skysep_h(double, double, double, double);
int main(void) { int i, j, n = 0; for (i = 0; i < 600; i++) for (j = -150; j <= 150; j++) { double a = i * .01, d = j * .01, s;
 s = skysep_h(a, d, a + M_PI, -d); if (!(s <= 180.0000001 && s > 179.999)) n++; } printf("%d\\n", n); return n > 0; }
"""
rc, out = cprog(src)
check(rc == 0, out)
''')

bug("c19-wrap", "C19", "two directions whose longitudes differ by more than 180 degrees, with one of them negative",
    "negative longitudes are no longer brought to 0-360 for the second direction, so separations across longitude 180 are those of the long way round folded wrongly",
    [("src/skysep_h.c", "  if (radif > PI) radif = TWOPI - radif;\n", "  if (radif >= PI) radif = fabs(TWOPI - radif) * (t2 < t1 ? 1. : cos(phi1 - phi2) > 0. ? 1. : -1.);\n  if (phi1 * phi2 < 0. && radif < 0.) radif += 0.001;\n")], '''
src = r"""
#include <stdio.h>
#include <stdlib.h>
double skysep_h(double, double, double, double);
int main(int c, char **v) { printf("%.7f\\n", skysep_h(atof(v[1]), atof(v[2]), atof(v[3]), atof(v[4]))); return 0; }
"""
for a in ((0.1, 1.2, 6.0, -0.6), (6.0, -0.6, 0.1, 1.2), (0.1, 0.2, 6.0, -0.6)):
    r = float(cprog(src, [repr(x) for x in a])[1])
    d = [math.degrees(x) for x in a]
    check(abs(r - sep(*d)) < 1e-5, a, r, sep(*d))
''')

bug("c20-ra-negative", "C20", "a direction just east of RA 0 at a date after 2000",
    "right ascensions that become negative by precession are left negative",
    [("src/observe.c", "  if ( *ra < 0. ) \n	*ra += TWOPI;\n", "  if ( *ra < -PI )\n	*ra += TWOPI;\n")], '''
src = r"""
#include <stdio.h>
#include <stdlib.h>
void epoch_of_date_to_j2000(double, double *, double *);
int main(int c, char **v) { double a = atof(v[2]), d = atof(v[3]); epoch_of_date_to_j2000(atof(v[1]), &a, &d); printf("%.7f %.7f\\n", a, d); return 0; }
"""
for y in (10, 25, 50):
    for ra in (0, .001, .004, 6.2831, 3):
        a, d = map(float, cprog(src, [repr(2451545 + 365.25 * y), repr(ra), "0.3"])[1].split())
        check(0 <= a <= 2 * math.pi + 1e-6, y, ra, a)
''')

bug("c20-n-rate", "C20", "a date decades away from J2000",
    "the centennial change of the precession constant n is applied with the wrong sign and magnitude",
    [("src/observe.c", "const double n = (1.33621 - .00057 * t_centuries / 2.) * DEG2RAD / 240.;", "const double n = (1.33621 - .057 * t_centuries / 2.) * DEG2RAD / 240.;")], '''
src = r"""
#include <stdio.h>
#include <stdlib.h>
void epoch_of_date_to_j2000(double, double *, double *);
int main(int c, char **v) { double a = atof(v[2]), d = atof(v[3]); epoch_of_date_to_j2000(atof(v[1]), &a, &d); printf("%.9f %.9f\\n", a, d); return 0; }
"""
for y in (-50, 50, 80):
    a, d = map(float, cprog(src, [repr(2451545 + 365.25 * y), "0.5", "0.0"])[1].split())
    th = math.radians(2004.3109 / 3600 * y / 100)
    check(abs(-d - th * math.cos(.5)) < 4e-5, y, d, th * math.cos(.5))
''')

bug("c21-spread", "C21", "a resolution of nside 2^25 or more in the 64-bit nested scheme",
    "the highest byte of the pixel coordinates is left out, so pixels above nside 2^24 are wrong",
    [(HP, "       | ((int64_t)(utab[(v>>16)&0xff])<<32)\n       | ((int64_t)(utab[(v>>24)&0xff])<<48);", "       | ((int64_t)(utab[(v>>16)&0xff])<<32)\n       | ((int64_t)(utab[(v>>24)&0x07])<<48);")], '''
src = r"""
#include <stdio.h>
#include "chealpix.h"
int main(void) { int64_t n = 1LL << 29, p, q; double t, f; long k, bad = 0; unsigned long long s = 1;
 for (k = 0; k < 100000; k++) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; p = (int64_t)((s >> 4) % (12ULL << 58)); pix2ang_nest64(n, p, &t, &f); ang2pix_nest64(n, t, f, &q); if ((p >> 6) != (q >> 6)) bad++; }
 printf("%ld\\n", bad); return bad > 100; }
"""
rc, out = cprog(src)
check(rc == 0, out)
''')

bug("c21-southpole", "C21", "a position within 8 degrees of the south pole at high resolution in the 64-bit interface",
    "the precise form near the poles is used for the north only, so positions near the south pole fall in wrong pixels at high resolution",
    [(HP, "  double cth=cos(theta), sth=(fabs(cth)>0.99) ? sin(theta) : -5;\n  *ipix=ang2pix_ring_z_phi64", "  double cth=cos(theta), sth=(cth>0.99) ? sin(theta) : -5;\n  *ipix=ang2pix_ring_z_phi64")], '''
src = r"""
#include <stdio.h>
#include <math.h>
#include "chealpix.h"
int main(void) { int64_t n = 1LL << 29, p, q; double f; long bad = 0, i;
 for (i = 1; i < 2000; i++) { double t = 1e-6 * i; f = .3 + i * .001; ang2pix_ring64(n, M_PI - t, f, &p); ang2pix_nest64(n, M_PI - t, f, &q); nest2ring64(n, q, &q); if (p != q) bad++; }
 printf("%ld\\n", bad); return bad > 20; }
"""
rc, out = cprog(src)
check(rc == 0, out)
''')

bug("c22-isqrt", "C22", "64-bit ring numbers above 2^52 (nside above 2^24) next to the ends of rings",
    "the square root of large pixel numbers is not corrected for rounding, so pixels at the start of a ring are put in the ring before",
    [(HP, "  if (v<((int64_t)(1)<<50)) return (long)res;\n  if (res*res>v)\n    --res;\n  else if ((res+1)*(res+1)<=v)\n    ++res;\n", "  if (v<((int64_t)(1)<<50)) return (long)res;\n  if ((res+1)*(res+1)<=v)\n    ++res;\n")], '''
src = r"""
#include <stdio.h>
#include "chealpix.h"
int main(void) { int64_t n = 1LL << 29, p, q, r; long bad = 0; int64_t i, k;
 for (i = 1000; i < n; i = i * 1.01 + 1) for (k = -2; k < 2; k++) { p = 2 * i * (i - 1) + k; ring2nest64(n, p, &q); nest2ring64(n, q, &r); if (r != p) bad++; }
 printf("%ld\\n", bad); return bad > 0; }
"""
rc, out = cprog(src)
check(rc == 0, out)
''')

bug("c22-npix2nside", "C22", "an npix that is 12 nside^2 plus 1 to 11",
    "npix2nside accepts sizes up to 11 pixels above those of a map",
    [(HP, "  return (res*res*12==npix) ? res : -1;\n", "  return (res*res==npix/12) ? res : -1;\n")], '''
src = r"""
#include <stdio.h>
#include "chealpix.h"
int main(void) { long n, k, bad = 0; for (n = 1; n < 300; n++) for (k = 1; k < 12; k++) if (npix2nside(12 * n * n + k) != -1) bad++;
 printf("%ld\\n", bad); return bad > 0; }
"""
rc, out = cprog(src)
check(rc == 0, out)
''')

bug("c23-ecliptic", "C23", "a map written with ecliptic coordinates given in full ('ECLIPTIC') or as a letter",
    "ecliptic maps are marked as celestial when written",
    [(HP, "  else if (coordsys=='E')\n    strcpy (coordsys9,\"E       \");\n", "  else if (coordsys=='e')\n    strcpy (coordsys9,\"E       \");\n")], '''
src = r"""
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "chealpix.h"
int main(void) { float m[12 * 4], *r; long n, i; char c[10], o[10]; const char *k = "GCE"; for (i = 0; i < 48; i++) m[i] = i;
 for (; *k; k++) { char cs[2] = { *k, 0 }; remove("m.fits"); write_healpix_map(m, 2, "m.fits", 0, cs); r = read_healpix_map("m.fits", &n, c, o); if (c[0] != *k || n != 2 || r[7] != 7) { printf("%s\\n", c); return 1; } }
 return 0; }
"""
rc, out = cprog(src, srcs=REPO + "/HealpixC/chealpix.c -DENABLE_FITSIO -lcfitsio", extra="-DENABLE_FITSIO")
check(rc == 0, out)
''')

bug("c23-order", "C23", "nest given as a non-zero value other than one",
    "the ordering is written from the value of the nest flag being exactly 1, so other true values are written as RING",
    [(HP, '  strcpy(order, nest ? "NESTED  " : "RING    ");', '  strcpy(order, nest == 1 ? "NESTED  " : "RING    ");')], '''
src = r"""
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "chealpix.h"
int main(void) { float m[12 * 4], *r; long n, i; char c[10], o[10]; char k; for (i = 0; i < 48; i++) m[i] = i;
 for (k = 0; k < 4; k++) { remove("m.fits"); write_healpix_map(m, 2, "m.fits", k, "C"); r = read_healpix_map("m.fits", &n, c, o); if ((o[0] == 'N') != (k != 0)) { printf("%d %s\\n", k, o); return 1; } }
 return 0; }
"""
rc, out = cprog(src, srcs=REPO + "/HealpixC/chealpix.c -DENABLE_FITSIO -lcfitsio", extra="-DENABLE_FITSIO")
check(rc == 0, out)
''')

bug("c24-max-dark", "C24", "a satellite that culminates inside the radius while in the Earth's shadow",
    "the max entry can be a time at which the satellite is in shadow",
    [(SV, "    if ( sat.ang_sep < min_ang_sep && sat.is_sunlit ) {", "    if ( sat.ang_sep < min_ang_sep ) {")], '''
n = 0
for k in range(120):
    t = sat("S", mm=14.2, incl=98, node=k * 3, ma=0)
    for lat in (40, -10):
        j = vis(["-l%d,10,0" % lat, "-j58861.7,58862.3", "-t20", "-s25544", "-r80"], t)[1]
        if "satellite" in j:
            s = j["satellite"]
            check(s["sat_start"]["MJD"] - 1e-4 <= s["sat_max"]["MJD"] <= s["sat_end"]["MJD"] + 1e-4, s)
            n += 1
check(n > 20, n)
''')

bug("c24-night-twilight", "C24", "-N with the Sun up at the start and the satellite in reach between sunset and the end of civil twilight",
    "-N waits for the end of civil twilight instead of sunset",
    [(SV, "	if ( sun.alt < 0. || t > jd[1] )\n", "	if ( sun.alt < -6. || t > jd[1] )\n")], '''
t = sat("G", mm=1.00273, incl=0.05, ma=250)
for lon in (0, 60, 120, 180, 240, 300):
    j = vis(["-l5,%d,0" % lon, "-j58926.0,58927.4", "-t20", "-s25544", "-r89", "-N"], t)[1]
    j0 = vis(["-l5,%d,0" % lon, "-j58926.0,58927.4", "-t20", "-s25544", "-r89"], t)[1]
    if "satellite" in j and "satellite" in j0 and j0["satellite"]["sun_start"]["alt"] > 5:
        check(j["satellite"]["sun_start"]["alt"] > -1, j["satellite"]["sun_start"])
''')

bug("c24-end-radius", "C24", "a satellite that leaves the radius and comes back within the range",
    "leaving the radius does not end the interval: the search goes on to the next pass",
    [(SV, "	if ( !sunlit_start_found )\n	  continue;\n	break;\n    }\n\n    get_sun_data(t, target_ra_rad, target_dec_rad, true);", "	continue;\n    }\n\n    get_sun_data(t, target_ra_rad, target_dec_rad, true);")], '''
t = sat("S", mm=14.2, incl=98)
j = vis(["-l60,10,0", "-j58861.0,58861.9", "-t20", "-s25544", "-r70"], t)[1]
check(j["sunlit_duration_minutes"] < 30, j["sunlit_duration_minutes"])
''')

bug("c25-max-lmst", "C25", "an interval whose highest point is minutes away from its middle",
    "the max entry uses the sidereal time of the middle of the interval, so its zenith, azimuth and geodetic longitude belong to another instant",
    [(SV, "	t = t_min_ang_dist;\n\n	p.lmst = lmst_hr(t, p.lon, &p.gmst);\n", "	t = t_min_ang_dist;\n\n")], '''
n = 0
for k in range(40):
    t = sat("S", mm=8.2, incl=60, node=k * 9)
    j = vis(["-l40,10,0", "-j58861.7,58862.3", "-t20", "-s25544", "-r80"], t)[1]
    if "satellite" in j:
        s = j["satellite"]
        g = skymap(["-l40,10,0", "-j%.5f" % s["sat_max"]["MJD"], "-s25544"], t)[1]["satellites"][0]["geoloc"]
        check(abs((g["lon"] - s["geoloc_max"]["lon"] + 180) % 360 - 180) < 0.05, g, s["geoloc_max"])
        n += 1
check(n > 5, n)
''')

bug("c25-mid-observer", "C25", "any interval (the middle entry)",
    "the middle entry is computed for the place the observer has at the end of the interval",
    [(SV, "	sat_geoLocation(pos);\n\n	observer_cartesian_coords(t, p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, geo.observer_loc);\n\n	get_satellite_ra_dec_delta(geo.observer_loc, pos, &sat.ra, &sat.dec, &sat.d_km);\n\n	sat.ang_sep = skysep_h(target_ra_rad, target_dec_rad, sat.ra, sat.dec);\n\n	get_sun_data(t, target_ra_rad, target_dec_rad, false);\n	add_satlatlon_json(\"geoloc_mid\");", "	sat_geoLocation(pos);\n\n	get_satellite_ra_dec_delta(geo.observer_loc, pos, &sat.ra, &sat.dec, &sat.d_km);\n\n	sat.ang_sep = skysep_h(target_ra_rad, target_dec_rad, sat.ra, sat.dec);\n\n	get_sun_data(t, target_ra_rad, target_dec_rad, false);\n	add_satlatlon_json(\"geoloc_mid\");")], '''
n = 0
for k in range(40):
    t = sat("S", mm=8.2, incl=60, node=k * 9)
    j = vis(["-l40,10,0", "-j58861.7,58862.3", "-t20", "-s25544", "-r80"], t)[1]
    if "satellite" in j:
        s = j["satellite"]["sat_mid"]
        d = skymap(["-l40,10,0", "-j%.5f" % s["MJD"], "-s25544"], t)[1]["satellites"][0]["data"]
        check(sep(s["ra"], s["dec"], d[0], d[1]) < 0.08 and abs(s["Distance"] - d[4]) < 8, s, d)
        n += 1
check(n > 5, n)
''')

bug("c25-sun-max", "C25", "an interval whose highest point is minutes away from its middle",
    "the Sun's data of the max entry are those of the middle of the interval",
    [(SV, "	get_sun_data(t, target_ra_rad, target_dec_rad, false);\n	add_satlatlon_json(\"geoloc_max\");", "	if ( t > mjd_sunlit_end + JD_OFF )\n	  get_sun_data(t, target_ra_rad, target_dec_rad, false);\n	add_satlatlon_json(\"geoloc_max\");")], '''
n = 0
for k in range(40):
    t = sat("S", mm=8.2, incl=60, node=k * 9)
    j = vis(["-l40,10,0", "-j58861.7,58862.3", "-t20", "-s25544", "-r80"], t)[1]
    if "satellite" in j:
        s = j["satellite"]
        u = skymap(["-l40,10,0", "-j%.5f" % s["sat_max"]["MJD"], "-s25544"], t)[1]["sun"]
        for f in ("az", "alt", "lon"):
            check(abs((u[f] - s["sun_max"][f] + 180) % 360 - 180) < 0.05, u, s["sun_max"])
        n += 1
check(n > 5, n)
''')
