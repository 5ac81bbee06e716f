// C15-C20: calendar, sidereal time, observer, alt/az, Sun, separations, reduction to J2000, against independent
// formulations in long double.
#include "pbt.hpp"
#include <algorithm>
using namespace pbt;
typedef long double ld;
extern "C" {
int date2mjd_nf(const char *date, double *mjd);
char *mjd2date(double mjd);
char *mjd2datef(double mjd);
double skysep_h(const double theta1, const double phi1, const double theta2, const double phi2);
double lmst_hr(const double jd, double lon, double *gmst);
void dechalat2alt(double dec, double ha, double lat, double *alt, double *az, double *parang);
void lpsun_radec(double jd, double *ra, double *dec);
void earthtilt(double tjd, double *mobl, double *tobl, double *eq, double *dpsi, double *deps);
int zenith_site_ra(double ut1, double lon, double *radeg);
int zenith_site_ra_last(double ut1, double lon, double *radeg);
void ut2gmst(double ut1, double *gmst);
void ut2gast(double ut1, double *gast);
void ut2last(double ut1, double lon, double *last);
void slaDh2e(double az, double el, double phi, double *ha, double *dec);
void sph2v(const double ra, const double dec, double v[3]);
void earth_lat_alt_to_parallax(const double lat, const double ht_in_meters, double *rho_cos_phi, double *rho_sin_phi);
void observer_cartesian_coords(const double jd, const double lon, const double rho_cos_phi, const double rho_sin_phi, double *vect);
void get_satellite_ra_dec_delta(const double *observer_loc, const double *satellite_loc, double *ra, double *dec, double *delta);
void epoch_of_date_to_j2000(const double jd, double *ra, double *dec);
}
static const ld PL = 3.14159265358979323846264338327950288L, D2R = PL / 180;
static const double PI_ = 3.14159265358979323846;

static ld wrap(ld x, ld p) { x = fmodl(x, p); if (x < 0) x += p; return x; }
static ld wdiff(ld a, ld b, ld p) { ld d = wrap(a - b, p); return d > p / 2 ? d - p : d; }
static void dirv(ld lon, ld lat, ld v[3]) { v[0] = cosl(lat) * cosl(lon); v[1] = cosl(lat) * sinl(lon); v[2] = sinl(lat); }
static ld angv(const ld a[3], const ld b[3]) {
  ld c[3] = {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
  return atan2l(sqrtl(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]), a[0] * b[0] + a[1] * b[1] + a[2] * b[2]);
}

// ---- calendar -------------------------------------------------------------------------------------
static int64_t days_civil(int64_t y, int m, int d) {  // days since 1970-01-01, proleptic Gregorian
  y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; int64_t yoe = y - era * 400;
  int64_t doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + doe - 719468;
}
static int dim(int64_t y, int m) {
  static const int k[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return m == 2 && ((y % 4 == 0 && y % 100) || y % 400 == 0) ? 29 : k[m - 1];
}
static const int64_t MJD1970 = 40587;
// "yyyy-mm-ddThh:mm:ss[.mmm]" to MJD seconds; all fields must be in range
static int64_t parse_date(const char *s, bool ms, int *milli) {
  CHECK(s != nullptr, "no date");
  CHECK(strlen(s) == (ms ? 23u : 19u), "date '%s' has a wrong length", s);
  int y, m, d, h, mi, se, f = 0, n = 0;
  int k = ms ? sscanf(s, "%4d-%2d-%2dT%2d:%2d:%2d.%3d%n", &y, &m, &d, &h, &mi, &se, &f, &n) : sscanf(s, "%4d-%2d-%2dT%2d:%2d:%2d%n", &y, &m, &d, &h, &mi, &se, &n);
  CHECK(k == (ms ? 7 : 6) && n == (int)strlen(s), "malformed date '%s'", s);
  for (int i = 0; i < 19; i++) { char c = "0000-00-00T00:00:00"[i]; CHECK(c == '0' ? (s[i] >= '0' && s[i] <= '9') : s[i] == c, "malformed date '%s'", s); }
  CHECK(m >= 1 && m <= 12 && d >= 1 && d <= dim(y, m) && h < 24 && mi < 60 && se < 60, "invalid date '%s'", s);
  *milli = f;
  return (days_civil(y, m, d) + MJD1970) * 86400 + h * 3600 + mi * 60 + se;
}
static std::string fmt_date(int64_t secs) {
  int64_t day = secs >= 0 ? secs / 86400 : -((-secs + 86399) / 86400); int64_t s = secs - day * 86400;
  int64_t z = day - MJD1970 + 719468, era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097;
  int64_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  int64_t d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9, y = yoe + era * 400 + (m <= 2);
  return fmt("%04d-%02d-%02dT%02d:%02d:%02d", (int)y, (int)m, (int)d, (int)(s / 3600), (int)(s / 60 % 60), (int)(s % 60));
}
static const int64_t LO = -678941LL * 86400, HI = 2973484LL * 86400 - 1;  // 0000-01-01 .. 9999-12-31 inclusive

// whole-second instants: a mix of uniform, month/year/century boundaries and the documented centuries
static int64_t g_secs() {
  switch (*irange(0, 4)) {
    case 0: return *irange(LO, HI);
    case 1: { int64_t y = *irange(0, 9999); int m = *irange(1, 12); return (days_civil(y, m, 1) + MJD1970) * 86400 + *irange(0, 172800) - (y || m > 1 ? *irange(0, 86400) : 0); }
    case 2: { int64_t y = *irange(0, 99) * 100; return std::min(HI, (days_civil(y, 2, 28) + MJD1970) * 86400 + *irange(0, 3 * 86400)); }
    default: return *irange(30000LL * 86400, 90000LL * 86400);
  }
}
static void body_date2mjd(const Toks &t) {
  In in(t); int64_t s = in.i64(), s2 = s + in.i64(), ms = t.size() > 2 ? in.i64() : 0;
  std::string d = fmt_date(s);
  if (ms > 0) {  // with a fraction: one to three digits
    int nd = ms % 100 == 0 ? 1 : ms % 10 == 0 ? 2 : 3;
    std::string f = d + fmt(".%03d", (int)ms).substr(0, nd + 1); double mf = -1e9;
    CHECK(date2mjd_nf(f.c_str(), &mf) == 0, "date2mjd_nf(%s) refused", f.c_str());
    ld w = (s + ms * 1e-3L) / 86400;
    CHECK(fabsl(mf - w) <= 0.5e-5L + 8e-8L, "date2mjd_nf(%s) = %.9f, is %.9Lf", f.c_str(), mf, w);
    label("fractional seconds");
  }
  if (want_show()) show(d);
  nontrivial();
  label_if(s < 15020LL * 86400, "before 1900"); label_if(s > 88069LL * 86400, "after 2100");
  label_if(d.substr(5, 5) == "02-29", "29 February"); label_if(d.substr(11) == "23:59:59" || d.substr(11) == "00:00:00", "midnight");
  double m = -1e9, m2 = -1e9;
  int rv = date2mjd_nf(d.c_str(), &m);
  CHECK(rv == 0, "date2mjd_nf(%s) refused", d.c_str());
  ld want = (ld)s / 86400;
  CHECK(fabsl(m - want) <= 0.5e-5L + 3e-8L, "date2mjd_nf(%s) = %.9f, is %.9Lf", d.c_str(), m, want);
  CHECK(floor(m + 1e-7) == floorl(want), "date2mjd_nf(%s) = %.9f is another day", d.c_str(), m);
  const char *b = mjd2date(m);
  CHECK(b && d == b, "%s -> %.9f -> %s", d.c_str(), m, b ? b : "(none)");
  if (s2 <= HI && s2 >= LO) {
    std::string e = fmt_date(s2); CHECK(date2mjd_nf(e.c_str(), &m2) == 0, "%s refused", e.c_str());
    if (s2 >= s) CHECK(m2 >= m, "%s is not before %s but their MJDs are %.9f, %.9f", e.c_str(), d.c_str(), m2, m);
    if (s2 > s) CHECK(m2 > m || s2 - s < 2, "%s, %s: %.9f, %.9f", d.c_str(), e.c_str(), m, m2);
  }
}
static Reg r1("date2mjd", []() { return Toks{g_secs(), *irange(0, 1) ? *irange(0, 100) : *irange(0, 4000000000LL), *irange(0, 1) ? 0 : *irange(0, 999)}; }, body_date2mjd);

static double g_mjd(double lo, double hi) {
  switch (*irange(0, 3)) {
    case 0: return *urange(lo, hi);
    case 1: return floor(*urange(lo, hi)) + *near({0, 0.5, 0.25, 1.0, 0.999994, 1.0 / 24}, 1e-4);
    case 2: { double d = floor(*urange(lo, hi)); double s = (double)*irange(0, 86399) + *rc::gen::elementOf(std::vector<double>{0, 0.5}); double m = d + s / 86400;
              int k = (int)*irange(-3, 3); for (; k > 0; k--) m = nextafter(m, 1e9); for (; k < 0; k++) m = nextafter(m, -1e9); return m; }
    default: return floor(*urange(lo, hi)) + (double)*irange(0, 100000) / 100000;
  }
}
static void body_mjd2date(const Toks &t) {
  In in(t); double m = in.d(), dm = in.d();
  if (want_show()) show(fmt("mjd %.12f", m));
  nontrivial();
  ld sec = (ld)m * 86400, tol = 1e-4L + fabsl(m) * 86400 * 2.3e-16L * 4;
  ld fr = sec - floorl(sec);
  label_if(fabsl(fr - 0.5L) < 1e-3L, "half a second"); label_if(fr < 1e-3L || fr > 0.999L, "whole second");
  label_if(m < 0, "before 1858");
  int ms; const char *p = mjd2date(m); std::string d = p ? p : "";
  CHECK(p, "mjd2date(%.12f) refused", m);
  int64_t s = parse_date(d.c_str(), false, &ms);
  CHECK(fabsl(s - sec) <= 0.5L + tol, "mjd2date(%.12f) = %s, %.6Lf s away", m, d.c_str(), s - sec);
  p = mjd2datef(m); std::string f = p ? p : "";
  CHECK(p, "mjd2datef(%.12f) refused", m);
  int64_t sf = parse_date(f.c_str(), true, &ms);
  ld e = (ld)sf + ms * 1e-3L - sec;
  CHECK(e <= tol && e >= -1e-3L - tol, "mjd2datef(%.12f) = %s, %.6Lf s away", m, f.c_str(), e);
  double m2 = m + dm;
  if (m2 < 2973483) {
    p = mjd2date(m2); CHECK(p, "mjd2date(%.12f) refused", m2);
    CHECK(parse_date(p, false, &ms) >= s, "mjd2date(%.12f) = %s is before mjd2date(%.12f) = %s", m2, p, m, d.c_str());
    p = mjd2datef(m2); CHECK(p, "mjd2datef(%.12f) refused", m2);
    CHECK(f <= p, "mjd2datef(%.12f) = %s is before mjd2datef(%.12f) = %s", m2, p, m, f.c_str());
  }
  double back; CHECK(date2mjd_nf(d.c_str(), &back) == 0, "%s refused", d.c_str());
  CHECK(fabsl((ld)back - m) <= 0.5L / 86400 + 0.5e-5L + 3e-8L, "%.12f -> %s -> %.12f", m, d.c_str(), back);
}
static Reg r2("mjd2date", []() { double m = *irange(0, 2) ? g_mjd(30000, 90000) : g_mjd(-678900, 2973400); return Toks{d2t(m), d2t(*irange(0, 1) ? *logrange(1e-12, 1) : *urange(0, 400))}; }, body_mjd2date);

// ---- sidereal time and observer ---------------------------------------------------------------------
static ld gmst_ref(double jd) {  // hours, IAU 1982
  ld j = (ld)jd, j0 = floorl(j - 0.5L) + 0.5L, ut = j - j0, T = (j0 - 2451545.0L) / 36525;
  ld s = 24110.54841L + T * (8640184.812866L + T * (0.093104L - T * 6.2e-6L)) + 86400 * 1.00273790934L * ut;
  return wrap(s / 3600, 24);
}
static double g_lon() { return *irange(0, 2) ? *urange(-180, 360) : *near({-180, 0, 180, 360, 15, 345}, 1); }
static double clampd(double x, double a, double b) { return std::min(std::max(x, a), b); }

static void nut_ref(ld T, ld &dpsi, ld &deps);
static void body_gmst(const Toks &t) {
  In in(t); double mjd = in.d(), lon = in.d(); double jd = mjd + 2400000.5;
  lon = clampd(lon, -180, 360);
  if (want_show()) show(fmt("jd %.9f lon %.9f", jd, lon));
  nontrivial();
  label_if(jd < 2451545, "before 2000"); label_if(lon < 0, "west"); label_if(lon >= 180, "longitude over 180");
  double g = -1, l = lmst_hr(jd, lon, &g), zr = -1, zl = -1, g2 = -1, ga = -1;
  ld G = gmst_ref(jd), L = wrap(G + (ld)lon / 15, 24);
  ld tol = 3e-8L;  // the day fraction of a double Julian date
  CHECK(g >= 0 && g < 24, "gmst(%.9f) = %.17g", jd, g);
  CHECK(l >= 0 && l < 24.0000000001, "lmst(%.9f, %.9f) = %.17g", jd, lon, l);
  CHECK(fabsl(wdiff(g, G, 24)) <= tol, "gmst(%.9f) = %.10f h, is %.10Lf", jd, g, G);
  CHECK(fabsl(wdiff(l, L, 24)) <= tol, "lmst(%.9f, lon %.9f) = %.10f h, is %.10Lf", jd, lon, l, L);
  if (mjd > 33282 && mjd < 69807) {  // 1950 .. 2050
    label("1950-2050");
    ld t01 = 0.1L / 3600 + 1e-7L;
    ut2gmst(jd, &g2);
    CHECK(g2 >= 0 && g2 < 24, "ut2gmst(%.9f) = %.17g", jd, g2);
    CHECK(fabsl(wdiff(g2, G, 24)) <= t01, "ut2gmst(%.9f) = %.10f h, is %.10Lf", jd, g2, G);
    zenith_site_ra(mjd, lon, &zr);
    CHECK(zr >= 0 && zr < 360.0000001, "zenith_site_ra(%.9f, %.9f) = %.12f", mjd, lon, zr);
    CHECK(fabsl(wdiff(zr, L * 15, 360)) <= t01 * 15, "zenith_site_ra(%.9f, %.9f) = %.9f, is %.9Lf", mjd, lon, zr, L * 15);
    ut2gast(jd, &ga);
    zenith_site_ra_last(mjd, lon, &zl);
    CHECK(fabsl(wdiff(ga, g2, 24)) * 3600 <= 1.2L, "GAST-GMST(%.9f) = %.4Lf s", jd, wdiff(ga, g2, 24) * 3600);
    ld T = ((ld)jd - 2451545) / 36525, P, E; nut_ref(T, P, E);
    ld eq = P * cosl((23.439291L - 0.0130042L * T) * D2R) / 15;
    CHECK(fabsl(wdiff(ga, g2, 24) * 3600 - eq) < 0.005L, "GAST-GMST(%.9f) = %.4Lf s, equation of the equinoxes %.4Lf s", jd, wdiff(ga, g2, 24) * 3600, eq);
    double la = -1; ut2last(jd, lon, &la);
    CHECK(la > -0.001 && la < 24.001 && fabsl(wdiff(la, ga + (ld)lon / 15, 24)) < 1e-9L, "ut2last(%.9f, %.9f) = %.10f, gast %.10f", jd, lon, la, ga);
    CHECK(fabsl(wdiff(zl, wrap((ga + (ld)lon / 15) * 15, 360), 360)) < 1e-8L, "zenith_site_ra_last(%.9f, %.9f) = %.9f, gast %.10f", mjd, lon, zl, ga);
  }
}
static Reg r3("gmst", []() { double m = *irange(0, 3) ? g_mjd(33282, 69807) : g_mjd(-100000, 200000); return Toks{d2t(m), d2t(g_lon())}; }, body_gmst);

// nutation: the larger terms of the IAU 1980 series (Meeus, table 22.A)
static void nut_ref(ld T, ld &dpsi, ld &deps) {
  ld D = 297.85036L + 445267.111480L * T - .0019142L * T * T, M = 357.52772L + 35999.050340L * T - .0001603L * T * T, Mp = 134.96298L + 477198.867398L * T + .0086972L * T * T,
     F = 93.27191L + 483202.017538L * T - .0036825L * T * T, O = 125.04452L - 1934.136261L * T + .0020708L * T * T;
  static const double k[][9] = {
      {0, 0, 0, 0, 1, -171996, -174.2, 92025, 8.9}, {-2, 0, 0, 2, 2, -13187, -1.6, 5736, -3.1}, {0, 0, 0, 2, 2, -2274, -.2, 977, -.5}, {0, 0, 0, 0, 2, 2062, .2, -895, .5},
      {0, 1, 0, 0, 0, 1426, -3.4, 54, -.1}, {0, 0, 1, 0, 0, 712, .1, -7, 0}, {-2, 1, 0, 2, 2, -517, 1.2, 224, -.6}, {0, 0, 0, 2, 1, -386, -.4, 200, 0},
      {0, 0, 1, 2, 2, -301, 0, 129, -.1}, {-2, -1, 0, 2, 2, 217, -.5, -95, .3}, {-2, 0, 1, 0, 0, -158, 0, 0, 0}, {-2, 0, 0, 2, 1, 129, .1, -70, 0},
      {0, 0, -1, 2, 2, 123, 0, -53, 0}, {2, 0, 0, 0, 0, 63, 0, 0, 0}, {0, 0, 1, 0, 1, 63, .1, -33, 0}, {2, 0, -1, 2, 2, -59, 0, 26, 0},
      {0, 0, -1, 0, 1, -58, -.1, 32, 0}, {0, 0, 1, 2, 1, -51, 0, 27, 0}, {-2, 0, 2, 0, 0, 48, 0, 0, 0}, {0, 0, -2, 2, 1, 46, 0, -24, 0},
      {2, 0, 0, 2, 2, -38, 0, 16, 0}, {0, 0, 2, 2, 2, -31, 0, 13, 0}, {0, 0, 2, 0, 0, 29, 0, 0, 0}, {-2, 0, 1, 2, 2, 29, 0, -12, 0},
      {0, 0, 0, 2, 0, 26, 0, 0, 0}, {-2, 0, 0, 2, 0, -22, 0, 0, 0}, {0, 0, -1, 2, 1, 21, 0, -10, 0}, {0, 2, 0, 0, 0, 17, -.1, 0, 0},
      {2, 0, -1, 0, 1, 16, 0, -8, 0}, {-2, 2, 0, 2, 2, -16, .1, 7, 0}, {0, 1, 0, 0, 1, -15, 0, 9, 0}, {-2, 0, 1, 0, 1, -13, 0, 7, 0}, {0, -1, 0, 0, 1, -12, 0, 6, 0}};
  dpsi = deps = 0;
  for (auto &r : k) {
    ld a = (r[0] * D + r[1] * M + r[2] * Mp + r[3] * F + r[4] * O) * D2R;
    dpsi += (r[5] + r[6] * T) * sinl(a); deps += (r[7] + r[8] * T) * cosl(a);
  }
  dpsi *= 1e-4L; deps *= 1e-4L;  // arcseconds
}
static void body_nut(const Toks &t) {
  In in(t); double mjd = in.d(), step = in.d(); double jd = mjd + 2400000.5;
  if (want_show()) show(fmt("jd %.6f after jd %.6f", jd, jd - step));
  nontrivial(); label_if(fabs(step) < 0.01, "instant within the cached one");
  double a, b, c, d, e, mo, to, eq, dp, de;
  earthtilt(jd - step, &a, &b, &c, &d, &e);  // whatever was asked before
  earthtilt(jd, &mo, &to, &eq, &dp, &de);
  ld T = ((ld)jd - 2451545) / 36525, P, E; nut_ref(T, P, E);
  CHECK(fabsl(dp - P) < 0.03L, "nutation in longitude at %.6f: %.5f\", series %.5Lf\"", jd, dp, P);
  CHECK(fabsl(de - E) < 0.02L, "nutation in obliquity at %.6f: %.5f\", series %.5Lf\"", jd, de, E);
  ld m = (84381.448L - T * (46.8150L + T * (0.00059L - T * 0.001813L))) / 3600;
  CHECK(fabsl(mo - m) < 1e-7L, "mean obliquity at %.6f: %.9f, is %.9Lf", jd, mo, m);
  CHECK(fabsl(to - (mo + (ld)de / 3600)) < 1e-10L, "true obliquity %.10f, mean %.10f, nutation %.6f\"", to, mo, de);
  CHECK(fabsl(eq - (ld)dp * cosl(to * D2R) / 15) < 1e-8L, "equation of the equinoxes %.9f s for dpsi %.6f\"", eq, dp);
}
static Reg r4("nutation", []() { return Toks{d2t(g_mjd(33282, 69807)), d2t(*irange(0, 1) ? *urange(-0.02, 0.02) : *urange(-3000, 3000))}; }, body_nut);

static double g_lat() { return *irange(0, 2) ? *urange(-90, 90) : clampd(*near({-90, 90, 0, 45, -45, -23.4, 66.5}, 1), -90, 90); }
static void body_observer(const Toks &t) {
  In in(t); double mjd = in.d(), lon = clampd(in.d(), -180, 360), lat = clampd(in.d(), -90, 90), h = in.d(); double jd = mjd + 2400000.5;
  if (want_show()) show(fmt("jd %.9f lon %.9f lat %.9f h %.3f m", jd, lon, lat, h));
  nontrivial(); label_if(fabs(lat) > 89.9, "polar site"); label_if(h < 0, "below the ellipsoid");
  double rc_, rs, v[3];
  double latr = lat * (PI_ / 180), lonr = lon * (PI_ / 180);
  earth_lat_alt_to_parallax(latr, h, &rc_, &rs);
  observer_cartesian_coords(jd, lonr, rc_, rs, v);
  ld a = 6378140.0L, b = 6356755.0L, sl = sinl(latr), cl = cosl(latr), W = sqrtl(a * a * cl * cl + b * b * sl * sl);
  ld r = (a * a / W + h) * cl / 1000, z = (b * b / W + h) * sl / 1000, th = gmst_ref(jd) * PL / 12 + lonr;
  ld e = sqrtl(powl(v[0] - r * cosl(th), 2) + powl(v[1] - r * sinl(th), 2) + powl(v[2] - z, 2));
  CHECK(e < 1e-4L, "observer at (%.6f,%.6f,%.6f) km, is (%.6Lf,%.6Lf,%.6Lf)", v[0], v[1], v[2], r * cosl(th), r * sinl(th), z);
}
static Reg r5("observer", []() { return Toks{d2t(*irange(0, 3) ? g_mjd(33282, 69807) : g_mjd(0, 100000)), d2t(g_lon()), d2t(g_lat()), d2t(*irange(0, 1) ? *urange(-500, 9000) : *logrange(1, 1e6))}; }, body_observer);

static void body_radec(const Toks &t) {
  In in(t); double o[3], s[3]; for (double &x : o) x = in.d();
  ld ra0 = in.d(), de0 = in.d(), d0 = in.d();
  ld u[3]; dirv(ra0, de0, u); for (int i = 0; i < 3; i++) s[i] = (double)(o[i] + d0 * u[i]);
  if (want_show()) show(fmt("observer %.3f %.3f %.3f, satellite %.3f %.3f %.3f", o[0], o[1], o[2], s[0], s[1], s[2]));
  nontrivial(); label_if(fabsl(de0) > 1.57L, "next to a pole"); label_if(s[1] == o[1], "on the RA 0/12h plane");
  double ra, dec, del; get_satellite_ra_dec_delta(o, s, &ra, &dec, &del);
  ld w[3] = {(ld)s[0] - o[0], (ld)s[1] - o[1], (ld)s[2] - o[2]}, n = sqrtl(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]), v[3]; 
  CHECK(ra >= 0 && ra <= 2 * PI_ && fabs(dec) <= PI_ / 2 + 1e-15, "RA %.17g Dec %.17g", ra, dec);
  CHECK(fabsl(del - n) <= 1e-12L * n, "distance %.12f, is %.12Lf", del, n);
  dirv(ra, dec, v); for (ld &x : w) x /= n;
  CHECK(angv(v, w) < 4e-8L, "direction RA %.12f Dec %.12f is %.3Lg rad away", ra, dec, angv(v, w));
}
static Reg r6("radec", []() {
  double ra = *irange(0, 2) ? *urange(0, 2 * PI_) : *near({0, PI_ / 2, PI_, 3 * PI_ / 2}, 0.1), de = *irange(0, 2) ? asin(*urange(-1, 1)) : clampd(*near({-PI_ / 2, PI_ / 2, 0}, 0.1), -PI_ / 2, PI_ / 2);
  Toks t; for (int i = 0; i < 3; i++) t.push_back(d2t(*irange(0, 3) ? *urange(-6400, 6400) : 0.0));
  t.push_back(d2t(ra)); t.push_back(d2t(de)); t.push_back(d2t(*logrange(100, 4e5))); return t; }, body_radec);

// ---- altitude, azimuth, parallactic angle -------------------------------------------------------------
static void body_altaz(const Toks &t) {
  In in(t); double dec = clampd(in.d(), -PI_ / 2, PI_ / 2), ha = in.d(), lat = clampd(in.d(), -90, 90);
  if (want_show()) show(fmt("dec %.12f ha %.12f h lat %.12f", dec / PI_ * 180, ha, lat));
  nontrivial();
  double latr = lat * (PI_ / 180);
  label_if(ha == 0, "on the meridian"); label_if(fabs(lat) > 89.99, "polar site"); label_if(fabs(dec) > 1.57, "object at a pole"); label_if(ha == 0 && dec > latr, "north of the zenith");
  double alt, az, q; dechalat2alt(dec, ha, lat, &alt, &az, &q);
  // horizon frame: x north, y east, z up
  ld H = (ld)ha * PL / 12, sd = sinl(dec), cd = cosl(dec), sp = sinl(latr), cp = cosl(latr);
  ld n = sd * cp - cd * cosl(H) * sp, e = -cd * sinl(H), u = sd * sp + cd * cosl(H) * cp;
  ld w[3] = {n, e, u}, v[3];
  CHECK(alt >= -90 && alt <= 90, "alt %.17g", alt);
  CHECK(az >= 0 && az < 360, "az %.17g", az);
  CHECK(q >= -360 && q <= 360, "parang %.17g", q);
  dirv((ld)az * D2R, (ld)alt * D2R, v);
  ld szd = sqrtl(n * n + e * e);  // sine of the zenith distance
  // arcsine near the zenith, and the documented rounding of the exact meridian transit through the zenith
  ld tol = 2e-7L / std::max((ld)1e-3, szd) * 1e-3L + 1e-10L;
  if (fabs(ha) < 1e-300 && fabs(dec - latr) < 1.1e-6) tol = 1.2e-6L;
  CHECK(fabsl((ld)alt - asinl(std::max(-1.0L, std::min(1.0L, u))) / D2R) * D2R <= tol, "dec %.9f ha %.9f lat %.9f: alt %.12f, is %.12Lf", dec, ha, lat, alt, asinl(u) / D2R);
  CHECK(angv(v, w) <= tol + 1e-9L, "dec %.9f ha %.9f lat %.9f: alt %.12f az %.12f is %.3Lg rad away from the object", dec, ha, lat, alt, az, angv(v, w));
  if (szd > 1e-12L) { ld A = wrap(atan2l(e, n) / D2R, 360); CHECK(fabsl(wdiff(az, A, 360)) * D2R * szd < 1e-12L, "dec %.9f ha %.9f lat %.9f: az %.12f, is %.12Lf", dec, ha, lat, az, A); }
  ld Q = atan2l(sinl(H) * cp, sp * cd - cp * sd * cosl(H)) / D2R, wq = szd * cd;
  if (wq > 1e-9L && szd > 1e-6L) CHECK(fabsl(wdiff(q, Q, 360)) * D2R * wq < 1e-11L, "dec %.9f ha %.9f lat %.9f: parang %.12f, is %.12Lf", dec, ha, lat, q, Q);
  else label("parallactic angle undefined");
  // the inverse
  double h2, d2; slaDh2e((ld)az * D2R, (ld)alt * D2R, latr, &h2, &d2);
  ld a1[3], a2[3]; dirv(h2, d2, a1); dirv(H, dec, a2);
  CHECK(angv(a1, a2) <= tol + 1e-7L, "slaDh2e(%.9f,%.9f,%.9f) is %.3Lg rad away", az, alt, lat, angv(a1, a2));
}
static Reg r7("altaz", []() {
  double lat = g_lat(), dec = *irange(0, 2) ? asin(*urange(-1, 1)) : *irange(0, 1) ? lat / 180 * PI_ + *near({0}, 0.3) : *near({-PI_ / 2, PI_ / 2, 0}, 0.1);
  double ha = *irange(0, 2) ? *urange(-24, 24) : *near({0, 0, 6, 12, -12, -6, 18, 24}, 0.1);
  return Toks{d2t(dec), d2t(ha), d2t(lat)}; }, body_altaz);

// ---- Sun -----------------------------------------------------------------------------------------------
static void body_sun(const Toks &t) {
  In in(t); double mjd = in.d(); double jd = mjd + 2400000.5;
  if (want_show()) show(fmt("jd %.6f", jd));
  nontrivial();
  double ra = -9, dec = -9; lpsun_radec(jd, &ra, &dec);
  ld T = ((ld)jd + 65.0L / 86400 - 2451545) / 36525;
  // Meeus' solar theory with the perturbations by the Moon and planets (good to 0.001 degree), apparent place
  ld U = T + 1, L0 = 279.69668L + U * (36000.76892L + U * .0003025L), M = (358.47583L + U * (35999.04975L - U * (.00015L + U * .0000033L))) * D2R, O = (125.04L - 1934.136L * T) * D2R;
  ld C = (1.919460L - U * (.004789L + U * .000014L)) * sinl(M) + (.020094L - .0001L * U) * sinl(2 * M) + .000293L * sinl(3 * M);
  C += .00134L * cosl((153.23L + 22518.7541L * U) * D2R) + .00154L * cosl((216.57L + 45037.5082L * U) * D2R) + .002L * cosl((312.69L + 32964.3577L * U) * D2R)
     + .00179L * sinl((350.74L + U * (445267.1142L - U * .00144L)) * D2R) + .00178L * sinl((231.19L + 20.20L * U) * D2R);
  ld lam = (L0 + C - .00569L - .00478L * sinl(O)) * D2R, eps = (23.4392911L - .0130042L * T + .00256L * cosl(O)) * D2R;
  ld w[3] = {cosl(lam), cosl(eps) * sinl(lam), sinl(eps) * sinl(lam)}, v[3]; dirv(ra, dec, v);
  label(ra < PI_ / 2 ? "spring" : ra < PI_ ? "summer" : ra < 3 * PI_ / 2 ? "autumn" : "winter");
  CHECK(ra >= 0 && ra < 2 * PI_ + 1e-12 && fabs(dec) < 0.41, "Sun RA %.9f Dec %.9f at %.6f", ra, dec, jd);
  CHECK(angv(v, w) / D2R < 0.015L, "Sun at %.6f: RA %.6f Dec %.6f deg is %.5Lf deg from the theory", jd, ra * 180 / PI_, dec * 180 / PI_, angv(v, w) / D2R);
  ld beta = (-sinl(eps) * v[1] + cosl(eps) * v[2]) / D2R;
  CHECK(fabsl(beta) < 0.005L, "Sun at %.6f: RA %.6f Dec %.6f deg is %.5Lf deg from the ecliptic", jd, ra * 180 / PI_, dec * 180 / PI_, beta);
}
static Reg r8("sun", []() {
  double m = *urange(33282, 69807);
  if (!*irange(0, 2)) m = 51543.5 + 91.310626 * floor(m / 91.31 - 560) + *near({79.3}, 3);  // equinoxes, solstices
  return Toks{d2t(clampd(m, 33282, 69807))}; }, body_sun);

// ---- separation -----------------------------------------------------------------------------------------
static ld sep_ref(double a1, double d1, double a2, double d2) { ld u[3], v[3]; dirv(a1, d1, u); dirv(a2, d2, v); return angv(u, v) / D2R; }
// of the haversine: 2 asin(sqrt(h)) loses half the digits next to 180 degrees
static ld sep_tol(ld s) { ld c = cosl(s / 2 * D2R); return 2e-13L + std::min(1e-13L / std::max(c, 1e-12L), 6e-6L); }
static void body_sep(const Toks &t) {
  In in(t); double a1 = in.d(), d1 = in.d(), a2 = in.d(), d2 = in.d(), a3 = in.d(), d3 = in.d(), rot = in.d();
  double *A[] = {&a1, &a2, &a3}, *D[] = {&d1, &d2, &d3};
  for (auto p : A) *p = clampd(*p, -PI_, 2 * PI_);
  for (auto p : D) *p = clampd(*p, -PI_ / 2, PI_ / 2);
  if (want_show()) show(fmt("(%.12f,%.12f) (%.12f,%.12f) (%.12f,%.12f)", a1, d1, a2, d2, a3, d3));
  double s = skysep_h(a1, d1, a2, d2);
  ld S = sep_ref(a1, d1, a2, d2);
  nontrivial(S > 0);
  label_if(S < 1e-4L, "tiny separation"); label_if(S > 179.9L, "antipodes"); label_if(fabs(d1) > 1.57 || fabs(d2) > 1.57, "at a pole"); label_if(a1 < 0 || a2 < 0, "negative longitude");
  CHECK(std::isfinite(s) && s >= 0 && s <= 180.0000000001, "separation of (%.17g,%.17g) and (%.17g,%.17g) is %.17g", a1, d1, a2, d2, s);
  CHECK(fabsl(s - S) <= sep_tol(S), "separation of (%.17g,%.17g) and (%.17g,%.17g) is %.15g, angle %.15Lg", a1, d1, a2, d2, s, S);
  if (a1 >= 0 && a2 >= 0 && fabs(a1 - a2) < 3 && S > 1e-12L) CHECK(fabsl(s - S) <= 1e-7L * S + sep_tol(S) * (S > 90 ? 1 : 1e-3L), "tiny separation %.12Lg given as %.12g", S, s);
  CHECK(fabsl(s - skysep_h(a2, d2, a1, d1)) <= 1e-13L, "not symmetric: %.17g %.17g", s, skysep_h(a2, d2, a1, d1));
  CHECK(skysep_h(a1, d1, a1, d1) == 0, "separation from itself %.17g", skysep_h(a1, d1, a1, d1));
  // full turns within [-180, 360]
  double b1 = a1 < 0 ? a1 + 2 * PI_ : a1 >= PI_ ? a1 - 2 * PI_ : a1;
  CHECK(fabsl(skysep_h(b1, d1, a2, d2) - S) <= sep_tol(S) + 1e-13L, "with longitude %.17g for %.17g: %.15g, was %.15g", b1, a1, skysep_h(b1, d1, a2, d2), s);
  // common rotation
  double r1 = a1 + rot, r2 = a2 + rot;
  r1 -= 2 * PI_ * floor(r1 / (2 * PI_)); r2 -= 2 * PI_ * floor(r2 / (2 * PI_));
  ld S2 = sep_ref(r1, d1, r2, d2);
  CHECK(fabsl(skysep_h(r1, d1, r2, d2) - S2) <= sep_tol(S2) && fabsl(S2 - S) < 1e-12L, "rotated by %.17g: %.15g, was %.15g", rot, skysep_h(r1, d1, r2, d2), s);
  double s13 = skysep_h(a1, d1, a3, d3), s23 = skysep_h(a2, d2, a3, d3);
  ld tt = sep_tol(s) + sep_tol(s13) + sep_tol(s23);
  CHECK(s13 <= s + s23 + tt && s <= s13 + s23 + tt && s23 <= s + s13 + tt, "triangle %.15g %.15g %.15g", s, s23, s13);
}
static Reg r9("sep", []() {
  auto ga = []() { return *irange(0, 2) ? *urange(-PI_, 2 * PI_) : *near({0, PI_, 2 * PI_, -PI_, PI_ / 2, 3 * PI_ / 2}, 0.1); };
  auto gd = []() { return *irange(0, 2) ? asin(*urange(-1, 1)) : *near({0, PI_ / 2, -PI_ / 2}, 0.1); };
  double a1 = ga(), d1 = gd(), a2, d2;
  switch (*irange(0, 3)) {
    case 0: case 1: a2 = ga(); d2 = gd(); break;
    case 2: { double e = *logrange(1e-14, 1e-2); double th = *urange(0, 2 * PI_); d2 = d1 + e * cos(th); a2 = a1 + e * sin(th) / std::max(cos(d1), 1e-9); if (*irange(0, 2) == 0) { a2 = a1; } break; }
    default: { a2 = a1 + PI_; if (a2 > 2 * PI_) a2 -= 2 * PI_; d2 = -d1; if (*irange(0, 1)) { a2 = nextafter(a2, *irange(0, 1) ? 10 : -10); d2 += *near({0}, 1e-3); } }
  }
  return Toks{d2t(a1), d2t(d1), d2t(a2), d2t(d2), d2t(ga()), d2t(gd()), d2t(*urange(-7, 7))}; }, body_sep);

// ---- reduction to J2000 ---------------------------------------------------------------------------------
static void prec_ref(double jd, const ld u[3], ld v[3], ld &tot) {  // IAU 1976, from equinox of date to J2000
  ld T = ((ld)jd - 2451545) / 36525, as = D2R / 3600;
  ld ze = T * (2306.2181L + T * (.30188L + T * .017998L)) * as, z = T * (2306.2181L + T * (1.09468L + T * .018203L)) * as, th = T * (2004.3109L - T * (.42665L + T * .041833L)) * as;
  // v = Rz(ze) Ry(-th) Rz(z) u
  ld a = cosl(z) * u[0] + sinl(z) * u[1], b = -sinl(z) * u[0] + cosl(z) * u[1], c = u[2];
  ld a2 = cosl(th) * a + sinl(th) * c, c2 = -sinl(th) * a + cosl(th) * c;
  v[0] = cosl(ze) * a2 + sinl(ze) * b; v[1] = -sinl(ze) * a2 + cosl(ze) * b; v[2] = c2;
  tot = fabsl(th);
}
static void body_j2000(const Toks &t) {
  In in(t); double mjd = in.d(), ra = clampd(in.d(), 0, 2 * PI_), dec = clampd(in.d(), -PI_ / 2, PI_ / 2); double jd = mjd + 2400000.5;
  if (want_show()) show(fmt("jd %.4f RA %.12f Dec %.12f", jd, ra * 180 / PI_, dec * 180 / PI_));
  nontrivial(); double pd = (PI_ / 2 - fabs(dec)) * 180 / PI_;
  label_if(pd < 0.5, "within half a degree of a pole"); label_if(pd == 0, "at a pole"); label_if(ra < 0.02 || ra > 6.26, "next to RA 0"); label_if(fabs(jd - 2451545) < 1e-3, "J2000 itself");
  double r = ra, d = dec; epoch_of_date_to_j2000(jd, &r, &d);
  CHECK(std::isfinite(r) && std::isfinite(d) && r >= 0 && r <= 2 * PI_ && fabs(d) <= PI_ / 2, "jd %.6f RA %.17g Dec %.17g -> RA %.17g Dec %.17g", jd, ra, dec, r, d);
  ld u[3], v[3], w[3], th; dirv(ra, dec, u); dirv(r, d, v); prec_ref(jd, u, w, th);
  ld e = angv(v, w), ta = tanl(std::min((ld)fabs(dec), PL / 2 - 1e-12L));
  // a first-order formula: what it neglects is of second order in theta tan(dec)
  ld x = th * (1 + ta);
  ld bound = 3e-5L * std::min((ld)1, fabsl((ld)jd - 2451545) / 3652.5L) + 1e-7L + (x < 0.3L ? 0.8L * th * x + 1.3L * th * x * x : 3 * th);
  CHECK(e <= bound, "jd %.4f RA %.9f Dec %.9f -> RA %.9f Dec %.9f is %.4Lf arcmin from rigorous precession (bound %.4Lf)", jd, ra, dec, r, d, e / D2R * 60, bound / D2R * 60);
  if (fabs(jd - 2451545) < 1e-9) CHECK(angv(u, v) < 1e-12L && fabs(d - dec) < 1e-15, "changed at J2000 by %.3Lg rad", angv(u, v));
  // continuity, also across RA 0
  double ra2 = ra + 1e-7; if (ra2 > 2 * PI_) ra2 -= 2 * PI_;
  double r2 = ra2, d2 = dec; epoch_of_date_to_j2000(jd, &r2, &d2);
  ld v2[3]; dirv(r2, d2, v2);
  CHECK(angv(v, v2) <= 1e-7L * (2 + 3 * th * ta * ta + 2 * th * ta) + 1e-12L || ta * th > 0.5L, "RA %.9f -> %.9f,%.9f but RA + 1e-7 -> %.9f,%.9f", ra, r, d, r2, d2);
}
static Reg r10("j2000", []() {
  double m = *irange(0, 9) ? *irange(0, 3) ? *urange(33282, 69807) : *near({51544.5}, 3000) : 51544.5;
  double ra = *irange(0, 2) ? *urange(0, 2 * PI_) : *near({0, 2 * PI_, PI_, PI_ / 2, 3 * PI_ / 2}, 0.02);
  double de = *irange(0, 2) ? asin(*urange(-1, 1)) : *near({-PI_ / 2, PI_ / 2, 0}, 0.02);
  return Toks{d2t(m), d2t(ra), d2t(de)}; }, body_j2000);

PBT_MAIN
