// C14: bytes and element values into the library, under AddressSanitizer and UBSan.  Hangs are libFuzzer timeouts.
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include "norad.h"
extern "C" {
int DLL_FUNC tle_checksum(const char *);
int date2mjd_nf(const char *date, double *mjd);
char *mjd2date(double mjd);
double skysep_h(const double, const double, const double, const double);
double lmst_hr(const double jd, double lon, double *gmst);
void dechalat2alt(double dec, double ha, double lat, double *alt, double *az, double *parang);
void lpsun_radec(double jd, double *ra, double *dec);
void earth_lat_alt_to_parallax(const double lat, const double ht_in_meters, double *rho_cos_phi, double *rho_sin_phi);
void observer_cartesian_coords(const double jd, const double lon, const double rho_cos_phi, const double rho_sin_phi, double *vect);
void get_satellite_ra_dec_delta(const double *, const double *, double *ra, double *dec, double *delta);
void epoch_of_date_to_j2000(const double jd, double *ra, double *dec);
}
#define FAIL(...) do { fprintf(stderr, "PROPERTY: "); fprintf(stderr, __VA_ARGS__); fprintf(stderr, "\n"); abort(); } while (0)

static const uint8_t *D; static size_t N;
static uint8_t u8() { if (!N) return 0; N--; return *D++; }
static double val(double scale) {
  static const double sp[] = {0, -0.0, 1, -1, 0.5, 1e-7, 1e-300, 1e300, INFINITY, -INFINITY, NAN, 0.9999999, 1.0000001, 3.141592653589793, 6.283185307179586, 1e9, -1e9, 1e-4, 0.00437526951, 0.2};
  uint8_t k = u8();
  if (k < 40) return sp[k % (sizeof sp / sizeof *sp)];
  if (k < 60) { uint64_t b = 0; for (int i = 0; i < 8; i++) b = b << 8 | u8(); double d; memcpy(&d, &b, 8); return d; }
  int v = u8() << 16 | u8() << 8; v |= u8();
  return (v / 16777216.0) * scale * (k & 1 ? 1 : (k & 6) == 2 ? -1 : 1);
}
static char *heap(const std::string &s) { char *p = (char *)malloc(s.size() + 1); memcpy(p, s.data(), s.size()); p[s.size()] = 0; return p; }

static void models(const tle_t &t, const double *ts, int nt) {
  typedef void (*I)(double *, const tle_t *); typedef int (*P)(const double, const tle_t *, const double *, double *, double *);
  static const I in[5] = {SGP_init, SGP4_init, SGP8_init, SDP4_init, SDP8_init};
  static const P pr[5] = {SGP, SGP4, SGP8, SDP4, SDP8};
  int sel = select_ephemeris(&t);
  if (sel < -1 || sel > 1) FAIL("select_ephemeris gives %d", sel);
  for (int m = 0; m < 5; m++) {
    double *par = (double *)malloc(N_SAT_PARAMS * sizeof(double));
    in[m](par, &t);
    for (int i = 0; i < nt; i++) {
      double *pos = (double *)malloc(3 * sizeof(double)), *vel = (double *)malloc(3 * sizeof(double));
      pr[m](ts[i], &t, par, pos, vel);
      pr[m](ts[i], &t, par, pos, NULL);
      free(pos); free(vel);
    }
    free(par);
  }
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
  D = data; N = size;
  uint8_t mode = u8() % 4;
  if (mode == 0) {
    tle_t t; memset(&t, 0, sizeof t);
    uint8_t e = u8();
    t.epoch = e & 1 ? 2451545. + val(20000) : val(1e7); t.bstar = val(0.01); t.eo = val(1); t.omegao = val(7); t.xincl = val(3.2); t.xmo = val(7);
    t.xno = val(e & 2 ? 0.08 : 0.01); t.xnodeo = val(7); t.xndt2o = val(1e-6); t.xndd6o = val(1e-9); t.ephemeris_type = e & 64 ? (e & 128 ? 'H' : (char)u8()) : '0';
    double ts[3]; int n = 1 + u8() % 3;
    for (int i = 0; i < n; i++) { ts[i] = val(1e5) * (1 + u8() % 64 * (i == 0)); if (!(fabs(ts[i]) <= 1e7)) ts[i] = 1000; }
    models(t, ts, n);
  } else if (mode == 1) {
    std::string all((const char *)D, N); size_t nl = all.find('\n');
    std::string a = all.substr(0, nl), b = nl == std::string::npos ? "" : all.substr(nl + 1);
    if (N & 1) for (auto *l : {&a, &b}) if (l->size() >= 69) { int c = 0; for (int i = 0; i < 68; i++) c += (*l)[i] >= '0' && (*l)[i] <= '9' ? (*l)[i] - '0' : (*l)[i] == '-'; (*l)[68] = (char)('0' + c % 10); }
    char *p = heap(a), *q = heap(b);
    tle_t s, t; memset(&s, 0, sizeof s); memset(&t, 0xff, sizeof t);
    int r = parse_elements(p, q, &s), r2 = parse_elements(p, q, &t);
    if (r != r2) FAIL("parse_elements gives %d and then %d for the same lines", r, r2);
    if (r > 3) FAIL("parse_elements gives %d", r);
    int c1 = tle_checksum(p), c2 = tle_checksum(q);
    if (r >= 0 && r != ((c1 ? 1 : 0) | (c2 ? 2 : 0))) FAIL("parse_elements gives %d, the lines' checksums %d and %d", r, c1, c2);
    if (r >= 0) {
      if (s.epoch != t.epoch || s.norad_number != t.norad_number || s.bulletin_number != t.bulletin_number || s.revolution_number != t.revolution_number || s.classification != t.classification
          || s.ephemeris_type != t.ephemeris_type || memcmp(s.intl_desig, t.intl_desig, 9) || memcmp(&s.xincl, &t.xincl, 6 * sizeof(double))
          || (s.ephemeris_type != 'H' && (s.xndt2o != t.xndt2o || s.xndd6o != t.xndd6o || s.bstar != t.bstar))) FAIL("the decoded elements depend on what was in memory before");
      if (s.ephemeris_type == 'H') { t.xndt2o = t.xndd6o = t.bstar = 0; t = s; }
      double ts[3] = {0, 1440, -100000};
      models(s, ts, 3);
    }
    free(p); free(q);
  } else if (mode == 2) {
    std::string a((const char *)D, N); char *p = heap(a); double m = 1;
    int r = date2mjd_nf(p, &m);
    if (r == 0 && !std::isfinite(m)) FAIL("date gives %f", m);
    tle_checksum(p);
    if (r == 0 && fabs(m) < 3e6) { char *o = mjd2date(m); if (o && strlen(o) < 19) FAIL("mjd2date"); }
    free(p);
  } else {
    double x = val(360), y = val(90), z = val(90), w = val(24), o[6], jd = 2400000.5 + val(1e6);
    if (!std::isfinite(jd) || fabs(jd) > 1e7) jd = 2451545;
    skysep_h(x, y, z, w); lmst_hr(jd, x, o); dechalat2alt(y, w, z, o, o + 1, o + 2); lpsun_radec(jd, o, o + 1);
    earth_lat_alt_to_parallax(y, w, o, o + 1); observer_cartesian_coords(jd, x, o[0], o[1], o + 2);
    double s[3] = {val(1e5), val(1e5), val(1e5)}, a, b, c; get_satellite_ra_dec_delta(o + 2, s, &a, &b, &c); epoch_of_date_to_j2000(jd, &a, &b);
    if (fabs(jd) < 3e6) mjd2date(jd - 2400000.5);
  }
  return 0;
}
