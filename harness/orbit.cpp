// C10 (against the reference propagator), C11 (self-consistency of the five models), C12 (state vectors).
#include "pbt.hpp"
#include "norad.h"
#include "refsgp4.h"
#include <algorithm>
using namespace pbt;
typedef long double ld;
static const double PI_ = 3.14159265358979323846, RE = 6378.135, XKE = 0.0743669161331734132;

static double norm(const double *a) { return std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }
static double dist(const double *a, const double *b) { double c[3] = {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; return norm(c); }
static bool finite3(const double *a) { return std::isfinite(a[0]) && std::isfinite(a[1]) && std::isfinite(a[2]); }

struct El { double v[8]; };  // epoch JD, bstar, e, argp, incl, M, n, node
static tle_t to_tle(const double *el) {
  tle_t t; memset(&t, 0, sizeof t);
  t.epoch = el[0]; t.bstar = el[1]; t.eo = el[2]; t.omegao = el[3]; t.xincl = el[4]; t.xmo = el[5]; t.xno = el[6]; t.xnodeo = el[7];
  t.norad_number = 1; t.classification = 'U'; t.ephemeris_type = '0';
  return t;
}
static std::string desc(const double *el, double t) {
  return fmt("epoch %.8f i %.6f deg node %.6f e %.7f argp %.6f M %.6f n %.8f rev/d (period %.2f min, perigee %.0f km) bstar %.6g, t %.6f min", el[0], el[4] * 180 / PI_, el[7] * 180 / PI_, el[2], el[3] * 180 / PI_, el[5] * 180 / PI_,
             el[6] * 720 / PI_, 2 * PI_ / el[6], (pow(XKE / el[6], 2. / 3) * (1 - el[2]) - 1) * RE, el[1], t);
}
static double g_ang() { return *irange(0, 4) ? *urange(0, 2 * PI_) : *near({0, PI_ / 2, PI_, 3 * PI_ / 2}, 0.01); }
static double g_inc() {
  switch (*irange(0, 5)) {
    case 0: return *urange(0, 0.22);
    case 1: return *rc::gen::elementOf(std::vector<double>{0, 0.01, 28.5, 51.64, 63.4, 63.435, 86.4, 89.99, 90, 97.8, 116.565, 0.05, 11.459}) * PI_ / 180;
    case 2: return *urange(1.5, 2.6);
    case 3: return fabs(*near({0.2, 1.1, PI_ / 2, 1.10714871779409, 0.2}, 0.05));
    default: return *urange(0, PI_ * 178 / 180);
  }
}
static double g_epoch() { return *irange(0, 3) ? *urange(2451545, 2462000) : *urange(2436000, 2470000); }
static void fill(double *el, double a, double e) {  // a in earth radii
  el[0] = g_epoch(); el[2] = e; el[3] = g_ang(); el[4] = g_inc(); el[5] = g_ang(); el[6] = XKE / pow(a, 1.5); el[7] = g_ang();
}
static double g_bstar(double hp) {
  double top = hp < 200 ? 3e-3 : hp < 400 ? 2e-3 : 1e-3;
  switch (*irange(0, 4)) { case 0: return 0; case 1: return -*logrange(1e-8, top); default: return *logrange(1e-7, top); }
}
static El g_near() {
  El x; double hp = *irange(0, 5) ? *urange(170, 1500) : *urange(85, 230), a, e;
  if (*irange(0, 2)) { e = *irange(0, 2) ? *logrange(1e-7, 0.03) : *urange(0, 0.35); if (!*irange(0, 9)) e = *rc::gen::elementOf(std::vector<double>{0, 1e-7, 9.9e-5, 1e-4, 1.01e-4}); a = (1 + hp / RE) / (1 - e); }
  else { a = *urange(1.03, 2.28); e = std::max(0.0, 1 - (1 + hp / RE) / a); }
  if (a > 2.29) { a = 2.29; }
  fill(x.v, a, e); x.v[1] = g_bstar((a * (1 - e) - 1) * RE);
  return x;
}
static double revs(double n) { return pow(XKE / (n * 2 * PI_ / 1440), 2. / 3); }  // semi-major axis of a mean motion in rev/day
static El g_deep() {
  El x; double a, e;
  switch (*irange(0, 6)) {
    case 0: a = revs(1.00273791 + *urange(-0.02, 0.02)); e = *irange(0, 1) ? *logrange(1e-6, 0.3) : *urange(0, 0.3); break;            // geosynchronous
    case 1: a = revs(*urange(0.8, 1.2)); e = *urange(0, 0.5); break;                                                                   // synchronous resonance band
    case 2: a = revs(2.0056 + *urange(-0.03, 0.03)); e = *urange(0.5, 0.76); break;                                                    // Molniya
    case 3: a = revs(*urange(1.9, 2.1)); e = *irange(0, 1) ? *logrange(1e-5, 0.02) : *urange(0.45, 0.77); break;                        // 12-hour band
    case 4: { double hp = *urange(180, 1500); a = revs(*urange(2.1, 6.35)); e = std::max(1e-7, 1 - (1 + hp / RE) / a); break; }         // transfer orbits
    case 5: a = revs(*urange(0.08, 1)); e = *urange(0, 0.85); if (a * (1 - e) < 1.05) e = 1 - 1.05 / a; break;                          // very high
    default: a = revs(*urange(2, 6.39)); e = *logrange(1e-7, 0.5); if (a * (1 - e) < 1.03) e = 1 - 1.03 / a;
  }
  fill(x.v, a, std::max(e, 1e-7)); x.v[1] = *irange(0, 2) ? 0 : g_bstar((a * (1 - e) - 1) * RE) * 0.3;
  return x;
}
static Toks enc(const El &x, std::initializer_list<double> more) { Toks t; for (double d : x.v) t.push_back(d2t(d)); for (double d : more) t.push_back(d2t(d)); return t; }

// ---- C10 ------------------------------------------------------------------------------------------------
static void against_ref(const Toks &t, bool far) {  // far: years from epoch or under extreme drag, where rounding is all there is
  In in(t); double el[8]; for (double &d : el) d = in.d(); double ts = in.d(); int withv = in.d() != 0;
  tle_t tle = to_tle(el);
  if (want_show()) show(desc(el, ts));
  bool rd = ref_is_deep(el), deep = select_ephemeris(&tle) == 1;
  double per = 2 * PI_ / el[6];
  if (fabs(per - 225) > 1) CHECK(deep == rd, "select_ephemeris: %d for a period of %.3f min", deep, per);
  label(deep ? "deep space" : "near earth");
  double params[N_SAT_PARAMS], r[3], v[3], rr[3], rv[3], info[10] = {0};
  int rc_, ref = ref_sgp4(el, ts, rr, rv, info, deep);
  if (deep) { SDP4_init(params, &tle); rc_ = SDP4(ts, &tle, params, r, withv ? v : nullptr); }
  else { SGP4_init(params, &tle); rc_ = SGP4(ts, &tle, params, r, withv ? v : nullptr); }
  if (deep) label(info[1] == 1 ? "synchronous resonance" : info[1] == 2 ? "12-hour resonance" : "no resonance");
  else label(info[2] ? "simplified drag" : "full drag");
  label_if(el[4] < 0.2 && deep, "Lyddane"); label_if(ts < 0, "before epoch");
  bool ok = rc_ == 0 || rc_ == -3 || rc_ == -4;
  if (ok) CHECK(finite3(r) && (!withv || finite3(v)), "%s: result %d but position %g %g %g", desc(el, ts).c_str(), rc_, r[0], r[1], r[2]);
  if (ref == 1) {
    // the theory has no orbit: not reported as a position (its own error margin excepted)
    bool margin = fabs(fabs(info[3]) - 1) < 2e-3 || ((el[2] > 0.98 || pow(XKE / el[6], 2. / 3) * (1 - el[2]) < 0.95) && fabs(fabs(info[3]) - 1) < 0.05) || fabs(info[5] * (1 - info[3] * info[3])) < 0.5 || fabs(info[5]) > 1e3;
    label("no orbit");
    if (!margin) CHECK(!ok, "%s: theory has no answer (e %.6f, a %.6f) but result %d, position %.3f %.3f %.3f", desc(el, ts).c_str(), info[3], info[5], rc_, r[0], r[1], r[2]);
    nontrivial(); return;
  }
  if (ref == 2 || ref == 4) { label("avoided: theory out of range"); return; }
  if (info[5] < 0.3 || info[3] > 0.999 || info[8] > 0.999) { label("avoided: next to no orbit"); return; }
  // deep inside the Earth the series of the theory mean nothing and magnify rounding without bound
  if (el[2] > 0.98 || pow(XKE / el[6], 2. / 3) * (1 - el[2]) < 0.95 || info[5] * (1 - fabs(info[3])) < 0.8) { label("avoided: perigee deep inside the Earth"); if (!ok) label("avoided: no position"); return; }
  if (info[3] < 0 && info[3] < -1e-3) { label("negative eccentricity"); }
  CHECK(ok, "%s: result %d, theory has a position", desc(el, ts).c_str(), rc_);
  nontrivial();
  if (far && (fabs(ts) > 45 * 1440 || info[5] > 50)) return;
  // growth of rounding with time and with sensitivity (small perigee, drag) for the near-earth model
  double days = fabs(ts) / 1440, tol, vt;
  if (!deep) tol = (2e-5 + 1e-6 * days) * std::max(1.0, info[5] * info[5]);
  else tol = 2e-4 + 2e-5 * days + (el[4] < 1e-3 ? 0.05 + 0.005 * days : 0);  // near zero inclination the lunisolar terms are divided by its sine
  double amp = 1 / std::max(1e-3, 1 - fabs(info[3])); tol *= amp;
  if (far) tol *= fabs(el[1]) > 2e-3 ? 3000 : 20; else if (fabs(el[1]) > 2e-3) tol *= 300;  // rounding in the drag polynomials
  if (info[3] < 3e-6) tol += 3e-6 * info[5] * RE;  // where the theories cut small (and negative) eccentricities off
  vt = tol * 0.07 * amp;
  if ((getenv("CALIB") && *getenv("CALIB"))) { static double mx[4]; int k = deep ? 1 + (info[1] != 0) : 0; double q = dist(r, rr) / tol; if (q > mx[k]) { mx[k] = q; fprintf(stderr, "%d %.4f d=%.3g tol=%.3g %s\n", k, q, dist(r, rr), tol, desc(el, ts).c_str()); } if (withv && dist(v, rv) / vt > mx[3]) { mx[3] = dist(v, rv) / vt; fprintf(stderr, "V %d %.4f d=%.3g %s\n", k, mx[3], dist(v, rv), desc(el, ts).c_str()); } return; }
  CHECK(dist(r, rr) <= tol, "%s: position (%.6f %.6f %.6f), theory (%.6f %.6f %.6f): %.6f km apart (tolerance %.6f)", desc(el, ts).c_str(), r[0], r[1], r[2], rr[0], rr[1], rr[2], dist(r, rr), tol);
  if (withv) CHECK(dist(v, rv) <= vt, "%s: velocity (%.6f %.6f %.6f), theory (%.6f %.6f %.6f) km/min", desc(el, ts).c_str(), v[0], v[1], v[2], rv[0], rv[1], rv[2]);
}
static double g_t(double maxd) {
  switch (*irange(0, 5)) { case 0: return *urange(-30, 30); case 1: return *urange(-maxd, maxd) * 1440; case 2: return *irange(0, 9) ? *urange(0, maxd) * 1440 : 0; default: return *urange(-0.1, 1) * maxd * 1440 * *urange(0, 1); }
}
static Reg r1("near", []() { El x = g_near(); return enc(x, {g_t(*irange(0, 3) ? 10 : 60), (double)*irange(0, 4)}); }, [](const Toks &t) { against_ref(t, false); });
static Reg r2("deep", []() { El x = g_deep(); return enc(x, {g_t(*irange(0, 3) ? 20 : 45), (double)*irange(0, 4)}); }, [](const Toks &t) { against_ref(t, false); });
// no answer: strong drag far from epoch, eccentricities next to 1
static Reg r3("noanswer", []() {
  El x; 
  if (*irange(0, 1)) { x = g_near(); x.v[1] = (*irange(0, 3) ? 1 : -1) * *logrange(1e-4, 0.9); return enc(x, {*logrange(10, 4e5), (double)*irange(0, 1)}); }
  x = g_deep(); if (*irange(0, 1)) x.v[1] = *logrange(1e-4, 0.9); else { x.v[2] = 1 - *logrange(1e-7, 0.05); }
  return enc(x, {*urange(-1, 1) * *logrange(10, 4e5), (double)*irange(0, 1)}); }, [](const Toks &t) { against_ref(t, true); });

// ---- the 225-minute rule ---------------------------------------------------------------------------------
static void body_select(const Toks &t) {
  In in(t); double el[8]; for (double &d : el) d = in.d(); int type = in.i32();
  tle_t tle = to_tle(el); static const char T[] = "0012345H"; tle.ephemeris_type = T[type];
  if (want_show()) show(fmt("type %c %s", T[type], desc(el, 0).c_str()));
  nontrivial();
  // period of the Brouwer mean motion
  ld e = el[2], c2 = cosl(el[4]) * cosl(el[4]), b = sqrtl(1 - e * e), k2 = 5.41308e-4L, a1 = powl((ld)XKE / el[6], 2.0L / 3);
  ld d1 = 1.5L * k2 * (3 * c2 - 1) / (b * b * b), D = d1 / (a1 * a1), ao = a1 * (1 - D / 3 - D * D - 134.0L / 81 * D * D * D), d0 = d1 / (ao * ao), P = 2 * PI_ / (el[6] / (1 + d0));
  int s = select_ephemeris(&tle);
  label_if(fabsl(P - 225) < 1, "within a minute of 225"); label(s ? "deep" : "near");
  switch (T[type]) {
    case 'H': case '3': case '5': CHECK(s == 1, "ephemeris type %c gives %d", T[type], s); break;
    case '2': case '4': CHECK(s == 0, "ephemeris type %c gives %d", T[type], s); break;
    default: if (fabsl(P - 225) > 1e-6L) CHECK(s == (P >= 225), "period %.9Lf min gives %d", P, s);
  }
  tle.ephemeris_type = '0'; tle.xno = -tle.xno; CHECK(select_ephemeris(&tle) < 0, "negative mean motion accepted"); tle.xno = 0; CHECK(select_ephemeris(&tle) < 0, "zero mean motion accepted");
  tle.xno = el[6]; tle.eo = -0.1; CHECK(select_ephemeris(&tle) < 0, "negative eccentricity accepted"); tle.eo = 1.5; CHECK(select_ephemeris(&tle) < 0, "hyperbolic orbit accepted");
}
static Reg r4("select", []() {
  El x = *irange(0, 1) ? g_near() : g_deep(); if (*irange(0, 2)) x.v[6] = 2 * PI_ / *near({225}, 2);
  Toks t = enc(x, {}); t.push_back(*irange(0, 7)); return t; }, body_select);

// ---- C11 ------------------------------------------------------------------------------------------------
typedef void (*initf)(double *, const tle_t *);
typedef int (*propf)(const double, const tle_t *, const double *, double *, double *);
struct Model { const char *name; initf init; propf prop; bool deep; };
static const Model MOD[] = {{"SGP", SGP_init, SGP, false}, {"SGP4", SGP4_init, SGP4, false}, {"SGP8", SGP8_init, SGP8, false}, {"SDP4", SDP4_init, SDP4, true}, {"SDP8", SDP8_init, SDP8, true}};
static bool good(int rc_) { return rc_ == 0; }

static void body_self(const Toks &t) {
  In in(t); int m = in.i32(); double el[8]; for (double &d : el) d = in.d(); double ts = in.d(); double others[4]; for (double &d : others) d = in.d(); double nd = in.d();
  const Model &M = MOD[m]; tle_t tle = to_tle(el);
  tle.xndt2o = nd;  // SGP8/SDP8 and SGP take their drag from here or from B*
  tle.xndd6o = 0;
  if (want_show()) show(fmt("%s %s ndot/2 %.4g", M.name, desc(el, ts).c_str(), nd));
  label(M.name); label_if(el[2] > 0.3, "eccentric"); label_if(ts < 0, "before epoch");
  double p1[N_SAT_PARAMS], p2[N_SAT_PARAMS], r[3], v[3], a[3], b[3], r2[3], v2[3];
  M.init(p1, &tle);
  int rv = M.prop(ts, &tle, p1, r, v);
  // position alone
  M.init(p2, &tle);
  int rb = M.prop(ts, &tle, p2, r2, nullptr);
  CHECK(rb == rv, "%s %s: %d with, %d without velocity", M.name, desc(el, ts).c_str(), rv, rb);
  if (rv == 0 || rv == -3 || rv == -4) {
    // SGP8 and SDP8 raise 1 - gamma t to a power: past the end of the orbit's life there is nothing to be consistent with
    if ((m == 2 || m == 4) && !finite3(r) && fabs(tle.bstar) > 0) { label("past the end of life"); return; }
    CHECK(finite3(r) && finite3(v), "%s %s: result %d, position %g %g %g velocity %g %g %g", M.name, desc(el, ts).c_str(), rv, r[0], r[1], r[2], v[0], v[1], v[2]);
    CHECK(memcmp(r, r2, sizeof r) == 0, "%s %s: position changes by %.3g km without velocity", M.name, desc(el, ts).c_str(), dist(r, r2));
  }
  if (!good(rv)) { label("no or unusual orbit"); return; }
  nontrivial();
  // other times in between, then the same again
  for (double o : others) M.prop(o, &tle, p1, a, b);
  int r3 = M.prop(ts, &tle, p1, r2, v2);
  CHECK(r3 == rv, "%s %s: result %d, then %d after other times", M.name, desc(el, ts).c_str(), rv, r3);
  bool closeby = false; for (double o : others) closeby |= fabs(o - ts) < 30.001;
  double tolr = M.deep ? closeby ? 0.6 : 3e-2 : 0, tolv = M.deep ? closeby ? 3e-2 : 3e-3 : 0;
  // resonance integration in half-day steps: away from exact resonance its error depends on where the steps fall
  double rev = el[6] * 720 / PI_, det = M.deep ? rev < 1.2 ? fabs(rev / 1.0027379 - 1) : fabs(rev / 2.0055 - 1) : 0;
  if (M.deep && rev > 1.85 && rev < 2.15) { tolr += 0.1 + 8 * pow(ts / 14400, 2); tolv += 0.003 + 0.4 * pow(ts / 14400, 2); }
  if (M.deep && rev > 0.8 && rev < 2.2) { tolr += 30 * pow(std::min(det, 0.2) / 0.2, 3); tolv += 0.3 * pow(std::min(det, 0.2) / 0.2, 3); }
  tolr /= std::max(1e-2, 1 - el[2]); tolv /= std::max(1e-2, (1 - el[2]) * (1 - el[2]));
  // lunar and solar periodics are re-evaluated every half hour only; they grow with the orbit
  double P = 2 * PI_ / el[6], big = M.deep && closeby ? std::max(1.0, P / 1440) : 1; tolr *= 2 * pow(big, 8. / 3); tolv *= big * big;
  if ((getenv("CALIB") && *getenv("CALIB")) && M.deep) { static double mxx[2]; double &mx = mxx[closeby]; double q = dist(r, r2) / tolr; if (q > mx) { mx = q; fprintf(stderr, "AGAIN %d %s %.4f d=%.3g others %g %g %g %g %s\n", closeby, M.name, q, dist(r, r2), others[0],others[1],others[2],others[3], desc(el, ts).c_str()); } } else
  CHECK(dist(r, r2) <= tolr && dist(v, v2) <= tolv, "%s %s: position %.6f km, velocity %.6f km/min away after other times were asked (%g %g %g %g)", M.name, desc(el, ts).c_str(), dist(r, r2), dist(v, v2), others[0], others[1], others[2], others[3]);
  // velocity is the derivative
  M.init(p1, &tle); M.prop(ts, &tle, p1, r2, v2);
  double a_ = pow(XKE / el[6], 2. / 3), h = std::min(5.0, 0.4 * pow(a_ * (1 - el[2]), 1.5));
  double f[4][3], d[3]; static const double off[] = {-2, -1, 1, 2};
  for (int k = 0; k < 4; k++) if (!good(M.prop(ts + off[k] * h, &tle, p1, f[k], nullptr))) return;
  for (int k = 0; k < 3; k++) d[k] = (8 * (f[2][k] - f[1][k]) - (f[3][k] - f[0][k])) / (12 * h);
  double q = dist(d, v) / norm(v);
  double rr = norm(r) / RE;
  double tol = 2.5e-3 / (rr * rr) / std::max(0.05, (1 - el[2])) + (el[2] < 0.1 ? 4e-4 : 1.2e-3); tol *= 2; if (M.deep && P > 1440) tol *= pow(P / 1440, 2);  // terms of second order in J2 the theories leave out of the rates
  if ((getenv("CALIB") && *getenv("CALIB"))) { static double mx[5]; if (q / tol > mx[m]) { mx[m] = q / tol; fprintf(stderr, "%s q=%.3g tol=%.3g %s\n", M.name, q, tol, desc(el, ts).c_str()); } return; }
  CHECK(q <= tol, "%s %s: velocity (%.6f %.6f %.6f), derivative of position (%.6f %.6f %.6f) km/min", M.name, desc(el, ts).c_str(), v[0], v[1], v[2], d[0], d[1], d[2]);
  // and sharper along the radius, along the orbit and across it: what the theories leave out there is of the order of
  // J2 times the eccentricity over p^2, plus the lunisolar terms, which grow as the period squared
  if (fabs(ts) < 4400 && fabs(el[1]) < 1e-4) {
    double c[3] = {r2[1] * v2[2] - r2[2] * v2[1], r2[2] * v2[0] - r2[0] * v2[2], r2[0] * v2[1] - r2[1] * v2[0]}, th[3] = {c[1] * r2[2] - c[2] * r2[1], c[2] * r2[0] - c[0] * r2[2], c[0] * r2[1] - c[1] * r2[0]};
    double D[3] = {0, 0, 0}; for (int k = 0; k < 3; k++) { double z = d[k] - v2[k]; D[0] += z * r2[k] / norm(r2); D[1] += z * th[k] / norm(th); D[2] += z * c[k] / norm(c); }
    static const double C[3][3][2] = {{{1.1e-3, 1.5e-3}, {2e-3, 8e-3}, {4e-5, 4e-3}}, {{3e-5, 1.3e-3}, {6e-5, 6e-3}, {4e-5, 4e-3}}, {{3e-5, 2.4e-3}, {6e-5, 6e-3}, {4e-5, 2e-3}}};
    double pp = a_ * (1 - el[2] * el[2]), e = el[2], big2 = P > 1440 ? pow(P / 1440, 2) : P / 1440, ti = std::min(1e3, tan(el[4] / 2));
    for (int k = 0; k < 3; k++) {
      const double *x = C[m < 3 ? m : m - 2][k];
      double lim = 2 * (x[0] + x[1] * e) / (pp * pp) * (1 + 0.3 * ti * ti * (m == 2 || m == 4)) + 1e-8;
      if (M.deep) lim += big2 * (m == 4 ? 2 : 1) * (1e-4 + 3e-4 * e + 5e-3 * std::max(0.0, e - 0.55) * (P > 720 ? 1 : 0.2));
      if (getenv("CALIB2")) { static double mx[5][3]; double y = fabs(D[k]) / norm(v2) / lim; if (y > mx[m][k]) { mx[m][k] = y; fprintf(stderr, "%s %d %.3f %s\n", M.name, k, y, desc(el, ts).c_str()); } continue; }
      static const char *dir[] = {"along the radius", "along the orbit", "across the orbit"};
      CHECK(fabs(D[k]) <= lim * norm(v2), "%s %s: velocity and derivative of position are %.3g km/min apart %s, over %.3g", M.name, desc(el, ts).c_str(), fabs(D[k]), dir[k], lim * norm(v2));
    }
  }
}
static El g_mild(bool deep) {
  El x = deep ? g_deep() : g_near(); double a = pow(XKE / x.v[6], 2. / 3), lo = 1 + 180 / RE;
  if (x.v[4] > 2.9) x.v[4] = *urange(1.5, 2.9);
  if (a < lo) { a = lo + *urange(0, 0.1); x.v[6] = XKE / pow(a, 1.5); }
  if (a * (1 - x.v[2]) < lo) x.v[2] = std::max(0.0, 1 - lo / a);
  return x;
}
static Reg r5("self", []() {
  int m = (int)*irange(0, 4); El x = g_mild(MOD[m].deep); if (x.v[1] > 3e-4 || x.v[1] < -3e-4) x.v[1] /= 10;
  Toks t; t.push_back(m); Toks e = enc(x, {g_t(MOD[m].deep ? 20 : 3)}); t.insert(t.end(), e.begin(), e.end());
  double ts = t2d(t.back()); bool close = !*irange(0, 3);
  for (int k = 0; k < 4; k++) t.push_back(d2t(close && *irange(0, 1) ? ts + *urange(-35, 35) : g_t(MOD[m].deep ? 40 : 20)));
  t.push_back(d2t(MOD[m].deep ? 0 : *urange(-1e-3, 1e-3) * 2 * PI_ / (1440.0 * 1440)));
  return t; }, body_self);

static void body_sibling(const Toks &t) {
  In in(t); double el[8]; for (double &d : el) d = in.d(); double ts = in.d(); tle_t tle = to_tle(el); tle.bstar = el[1];
  if (want_show()) show(desc(el, ts));
  bool deep = select_ephemeris(&tle) == 1; label(deep ? "SDP4, SDP8" : "SGP, SGP4, SGP8");
  double p[3][N_SAT_PARAMS], r[3][3], v[3][3]; int rc_[3]; int i0 = deep ? 3 : 0, n = deep ? 2 : 3;
  for (int k = 0; k < n; k++) { MOD[i0 + k].init(p[k], &tle); rc_[k] = MOD[i0 + k].prop(ts, &tle, p[k], r[k], v[k]); }
  for (int k = 0; k < n; k++) if (!good(rc_[k])) { label("no or unusual orbit"); return; }
  nontrivial();
  for (int k = 0; k < n; k++) for (int j = k + 1; j < n; j++) {
    double d = dist(r[k], r[j]), rr = norm(r[k]);
    // second-order short-period terms: about J2^2 times the radius, eccentricity-dependent; secular drift over a day
    double tol = deep ? 8 + 0.25 * fabs(ts) / 60 : 6 + 0.3 * fabs(ts) / 60;
    tol /= std::max(0.1, (1 - el[2]) * (1 - el[2]));
    tol *= 1 + 2 * el[2] * std::max(0.0, tan(el[4] / 2) - 1.2);  // the 8 family divides by 1 + cos i
    tol += 2e-4 * rr; if (2 * PI_ / el[6] > 1440) tol *= pow(2 * PI_ / el[6] / 1440, 2);
    if ((getenv("CALIB") && *getenv("CALIB"))) { static double mx[9]; int q = (i0 + k) * 3 + j - i0; if (q > 8) q = 8;  if (d / tol > mx[q]) { mx[q] = d / tol; fprintf(stderr, "%s-%s d=%.3g tol=%.3g %s\n", MOD[i0 + k].name, MOD[i0 + j].name, d, tol, desc(el, ts).c_str()); } continue; }
    CHECK(d <= tol, "%s: %s (%.3f %.3f %.3f) and %s (%.3f %.3f %.3f) are %.3f km apart", desc(el, ts).c_str(), MOD[i0 + k].name, r[k][0], r[k][1], r[k][2], MOD[i0 + j].name, r[j][0], r[j][1], r[j][2], d);
  }
}
static Reg r6("sibling", []() { El x = g_mild(*irange(0, 1)); x.v[1] = 0; if (x.v[4] > 2.6) x.v[4] = *urange(1.6, 2.6); return enc(x, {*urange(-1, 1) * *rc::gen::elementOf(std::vector<double>{10, 100, 720})}); }, body_sibling);

// ---- C12 ------------------------------------------------------------------------------------------------
static void body_high(const Toks &t) {
  In in(t); double st[6]; for (double &d : st) d = in.d(); double epoch = in.d(), ts = in.d(); double o1 = in.d();
  tle_t tle; memset(&tle, 0, sizeof tle); tle.epoch = epoch; tle.ephemeris_type = 'H'; double *s = &tle.xincl; for (int k = 0; k < 6; k++) s[k] = st[k];
  double rr = norm(st), vv = norm(st + 3), mu = 3.9860044e14, a = 1 / (2 / rr - vv * vv / mu), hx = st[1] * st[5] - st[2] * st[4], hy = st[2] * st[3] - st[0] * st[5], hz = st[0] * st[4] - st[1] * st[3], p = (hx * hx + hy * hy + hz * hz) / mu;
  double e = std::sqrt(std::max(0.0, 1 - p / a)), peri = p / (1 + e);
  if (want_show()) show(fmt("state (%.1f %.1f %.1f) m (%.4f %.4f %.4f) m/s, perigee %.0f km, e %.4f, t %.3f min", st[0], st[1], st[2], st[3], st[4], st[5], peri / 1e3, e, ts));
  CHECK(select_ephemeris(&tle) == 1, "state vector selected as %d", select_ephemeris(&tle));
  double pr[N_SAT_PARAMS], r0[3], v0[3], r[3], v[3], q[3], w[3];
  SDP4_init(pr, &tle);
  CHECK(SDP4(0., &tle, pr, r0, v0) == 0, "no position at epoch");
  for (int k = 0; k < 3; k++) {
    CHECK(fabs(r0[k] - st[k] / 1e3) <= 1e-9 * rr / 1e3, "position %d at epoch %.9f km, stored %.9f", k, r0[k], st[k] / 1e3);
    CHECK(fabs(v0[k] - st[k + 3] * 0.06) <= 1e-9 * vv * 0.06, "velocity %d at epoch %.9f km/min, stored %.9f", k, v0[k], st[k + 3] * 0.06);
  }
  int rv = SDP4(ts, &tle, pr, r, v);
  CHECK(rv == 0 && finite3(r) && finite3(v), "result %d at %.3f min", rv, ts);
  CHECK(SDP4(ts, &tle, pr, q, nullptr) == 0 && memcmp(q, r, sizeof q) == 0, "position without velocity differs");
  SDP4(o1, &tle, pr, q, w);
  CHECK(SDP4(ts, &tle, pr, q, w) == 0 && memcmp(q, r, sizeof q) == 0 && memcmp(w, v, sizeof w) == 0, "position depends on times asked before");
  // accuracy of one-day Runge-Kutta steps; beyond it nothing is promised
  double dyn = std::sqrt(peri * peri * peri / mu);                              // shortest time scale of the orbit, s
  double steps = std::min(fabs(ts) / 1440, 1.0) * 86400 / dyn;               // radians per step at perigee
  label(steps < 0.05 ? "step under 0.05 rad" : steps < 0.5 ? "step under 0.5 rad" : steps < 1.5 ? "step under 1.5 rad" : "orbit shorter than the step");
  double lun; { double R[3], V[3], S[3]; (void)S; ref_high(st, epoch, 0, 64, R, V); lun = 0; }
  (void)lun;
  if (steps > 0.5) return;
  label_if(fabs(ts) > 1440, "several steps"); label_if(ts < 0, "before epoch"); label_if(a < 0, "hyperbolic");
  double R[3], V[3]; ref_high(st, epoch, ts, 96, R, V);
  // what steps of a day can give: the same method with the same steps, against fine steps
  double R1[3], V1[3]; ref_high(st, epoch, ts, 1, R1, V1);
  double tol = 2e-5 + 3 * dist(R, R1) + 1e-9 * (rr / 1e3 + vv * fabs(ts) * 0.06);
  if (tol > 5) { label("too coarse for steps of a day"); return; }
  nontrivial();
  double vt = 3 * dist(V, V1) + 2e-8 * (1 + norm(V)) + 2e-5 / (dyn / 60);
  if ((getenv("CALIB") && *getenv("CALIB"))) { static double mx[3]; if (dist(r, R) / tol > mx[0]) { mx[0] = dist(r, R) / tol; fprintf(stderr, "R %.4f d=%.3g tol=%.3g steps %.3f nst %.0f %s\n", mx[0], dist(r, R), tol, steps, 0., S().show.c_str()); } return; }
  CHECK(dist(r, R) <= tol, "after %.3f min (%.6f %.6f %.6f) km, integrated (%.6f %.6f %.6f): %.6f km apart (tolerance %.6f)", ts, r[0], r[1], r[2], R[0], R[1], R[2], dist(r, R), tol);
  CHECK(dist(v, V) <= vt, "%.3g off (tolerance %.3g; step %.3g) after %.6g min velocity (%.8f %.8f %.8f) km/min, integrated (%.8f %.8f %.8f)", dist(v, V), vt, steps, ts, v[0], v[1], v[2], V[0], V[1], V[2]);
  // derivative
  double h = std::min(1.0, dyn / 60 * 1e-3), ra[3], rb[3]; SDP4(ts + h, &tle, pr, ra, nullptr); SDP4(ts - h, &tle, pr, rb, nullptr);
  double d[3]; for (int k = 0; k < 3; k++) d[k] = (ra[k] - rb[k]) / (2 * h);
  CHECK(dist(d, v) <= (1e-5 + 0.2 * pow(steps, 4)) * norm(v) + 2 * tol / h + 1e-10 * norm(r) / h || tol > 1e-2, "velocity (%.8f %.8f %.8f), derivative (%.8f %.8f %.8f)", v[0], v[1], v[2], d[0], d[1], d[2]);
  // out and back
  tle_t back = tle; back.epoch = epoch + ts / 1440; double *sb = &back.xincl; for (int k = 0; k < 3; k++) { sb[k] = r[k] * 1e3; sb[k + 3] = v[k] / 0.06; }
  double pb[N_SAT_PARAMS]; SDP4_init(pb, &back); SDP4(-ts, &back, pb, q, w);
  double te = 2 * tol + fabs(back.epoch) * 2.3e-16 * 86400 * vv * 1e-3 * 2 + 1e-6 + 0.05 * pow(steps, 5) * std::max(rr / 1e3, norm(r)) * std::max(1.0, fabs(ts) / 1440);
  CHECK(dist(q, r0) <= te * 2, "out to %.3f min and back: %.6f km from the start (tolerance %.6f)", ts, dist(q, r0), te);
}
static Reg r7("high", []() {
  // an orbit of given perigee and eccentricity, at a given anomaly; TLE storage of 'H' elements is metres and m/s
  double peri = *logrange(7e6, 3e8), e = *irange(0, 3) ? *urange(0, 0.9) : *urange(1.0, 1.6), nu = *urange(-1, 1) * (e < 1 ? PI_ : 0.9 * acos(-1 / e)), mu = 3.9860044e14, p = peri * (1 + e), r = p / (1 + e * cos(nu));
  if (r > 6e8) { nu *= 0.3; r = p / (1 + e * cos(nu)); }
  double i = *urange(0, PI_), O = *urange(0, 2 * PI_), w = *urange(0, 2 * PI_), s = std::sqrt(mu / p);
  double x = r * cos(nu), y = r * sin(nu), vx = -s * sin(nu), vy = s * (e + cos(nu)), cO = cos(O), sO = sin(O), cw = cos(w), sw = sin(w), ci = cos(i), si = sin(i);
  double P[3] = {cO * cw - sO * sw * ci, sO * cw + cO * sw * ci, sw * si}, Q[3] = {-cO * sw - sO * cw * ci, -sO * sw + cO * cw * ci, cw * si};
  Toks t; for (int k = 0; k < 3; k++) t.push_back(d2t(P[k] * x + Q[k] * y)); for (int k = 0; k < 3; k++) t.push_back(d2t(P[k] * vx + Q[k] * vy));
  t.push_back(d2t(*urange(2444000, 2466000)));
  double dyn = std::sqrt(peri * peri * peri / mu) / 60;  // minutes
  double ts = *irange(0, 3) ? *urange(-0.5, 0.5) * std::min(dyn, 20.0 * 1440) : *urange(-10, 10) * 1440;
  if (!*irange(0, 4)) ts = (double)*irange(-6, 6) * 1440;
  t.push_back(d2t(ts)); t.push_back(d2t(*urange(-5000, 5000))); return t; }, body_high);
// ---- C27 ------------------------------------------------------------------------------------------------
struct Options {  // of the deep-space models, back to what they are by default at the end
  Options(double step, int order, int dundee) { ref_step = step; ref_order = order; set(step, order, dundee); }
  ~Options() { ref_step = 720; ref_order = 2; set(720, 2, 0); }
  static void set(double step, int order, int dundee) { sxpx_set_dpsec_integration_step(step); sxpx_set_implementation_param(SXPX_DPSEC_INTEGRATION_ORDER, order); sxpx_set_implementation_param(SXPX_DUNDEE_COMPLIANCE, dundee); }
};
static void body_options(const Toks &t) {
  In in(t); int m = in.i32(), order = in.i32(), dundee = in.i32(); double step = in.d(), el[8]; for (double &d : el) d = in.d(); double ts = in.d(), others[6]; for (double &d : others) d = in.d();
  const Model &M = MOD[m]; tle_t tle = to_tle(el);
  if (want_show()) show(fmt("%s step %g order %d dundee %d %s, other times %g %g %g %g %g %g", M.name, step, order, dundee, desc(el, ts).c_str(), others[0], others[1], others[2], others[3], others[4], others[5]));
  double p[N_SAT_PARAMS], r0[3], v0[3], r[3], v[3], a[3], b[3], rr[3], rv[3], info[10] = {0};
  M.init(p, &tle); int rc0 = M.prop(ts, &tle, p, r0, v0);
  if (!M.deep) {  // the near-earth models have none of it
    Options o(step, order, dundee);
    M.init(p, &tle); int rc1 = M.prop(ts, &tle, p, r, v);
    CHECK(rc1 == rc0 && (!good(rc0) || (!memcmp(r, r0, sizeof r) && !memcmp(v, v0, sizeof v))), "%s changes with the options of the deep-space models", M.name);
    label("near earth"); nontrivial(); return;
  }
  int ref, rc1;
  {
    Options o(step, order, dundee);
    ref = ref_sgp4(el, ts, rr, rv, info, 1);
    M.init(p, &tle); rc1 = M.prop(ts, &tle, p, r, v);
    label(info[1] == 1 ? "synchronous resonance" : info[1] == 2 ? "12-hour resonance" : "no resonance");
    if (dundee && (rc1 == 0 || rc1 == -3 || rc1 == -4) && finite3(r)) {  // whatever was asked before
      label("Dundee");
      for (double x : others) M.prop(x, &tle, p, a, b);
      int rc2 = M.prop(ts, &tle, p, a, b);
      bool edge = fabs(ts / step - std::round(ts / step)) < 1e-9;  // a whole number of steps but for rounding
      CHECK(rc2 == rc1 && ((!memcmp(a, r, sizeof r) && !memcmp(b, v, sizeof v)) || (edge && dist(a, r) < 1e-5 && dist(b, v) < 1e-6)), "%s with Dundee compliance: position %.9f km away after other times were asked", M.name, dist(a, r));
      nontrivial();
    }
  }
  bool steps = info[1] != 0 && (fabs(ts) > step || fabs(ts) > 720 || order != 2);
  if (!steps) CHECK(rc1 == rc0 && (!good(rc0) || (!memcmp(r, r0, sizeof r) && !memcmp(v, v0, sizeof v))), "%s: %.9f km from the default's, which takes the same steps", M.name, dist(r, r0));
  if (m == 3 && ref == 0 && good(rc1) && !(info[5] < 0.3 || info[5] > 30 || info[3] > 0.98 || info[5] * (1 - info[3]) < 0.95 || info[3] < -1e-3)) {
    double amp = 1 / std::max(1e-3, 1 - fabs(info[3])), tol = (2e-5 + 2e-6 * fabs(ts) / 1440 + (el[4] < 1e-3 ? 0.05 : 0)) * amp;
    if (info[3] < 3e-6) tol += 3e-6 * info[5] * RE;
    if ((getenv("CALIB") && *getenv("CALIB"))) { static double mx; if (dist(r, rr) / tol > mx) { mx = dist(r, rr) / tol; fprintf(stderr, "OPT %.4f %s\n", mx, S().show.c_str()); } }
    else CHECK(dist(r, rr) <= tol, "%s: position (%.6f %.6f %.6f), theory in these steps (%.6f %.6f %.6f): %.6f km apart", M.name, r[0], r[1], r[2], rr[0], rr[1], rr[2], dist(r, rr));
    nontrivial(); label_if(steps, "compared with the theory in other steps");
  }
  // and back
  M.init(p, &tle); int rc3 = M.prop(ts, &tle, p, a, b);
  CHECK(rc3 == rc0 && (!good(rc0) || (!memcmp(a, r0, sizeof a) && !memcmp(b, v0, sizeof b))), "%s: %.9f km from the first answer with the options as they were", M.name, dist(a, r0));
}
static Reg r8("options", []() {
  int m = (int)*irange(0, 14); m = m < 3 ? m : m < 10 ? 3 : 4;
  El x = MOD[m].deep ? g_deep() : g_near(); if (x.v[1] > 1e-4) x.v[1] = 1e-4;
  Toks t; t.push_back(m); t.push_back(*irange(0, 2) ? *irange(1, 9) : 2); t.push_back(*irange(0, 1));
  double step = *irange(0, 2) ? *logrange(10, 3000) : *rc::gen::elementOf(std::vector<double>{720, 720, 360, 90, 1440, 10, 1e6}); t.push_back(d2t(step));
  double ts = g_t(*irange(0, 3) ? 20 : 45); if (!*irange(0, 5)) ts = (double)*irange(-20, 20) * step; if (fabs(ts) > 64800) ts = fmod(ts, 64800.);
  Toks e = enc(x, {ts}); t.insert(t.end(), e.begin(), e.end());
  for (int k = 0; k < 6; k++) { double o = g_t(40); switch (*irange(0, 5)) { case 0: o = ts + *urange(-35, 35); break; case 1: o = ts * *urange(0, 2); break; case 2: o = (double)*irange(-20, 20) * step; break; case 3: o = -ts; break; default:; } if (fabs(o) > 64800) o = fmod(o, 64800.); t.push_back(d2t(o)); }
  return t; }, body_options);
// ---- C28: SGP, SGP8 and SDP8 against Spacetrack Report 3 --------------------------------------------------
static void body_report3(const Toks &t) {
  In in(t); int m = in.i32(); double el[8]; for (double &d : el) d = in.d(); double ts = in.d(), nd = in.d(), ndd = in.d();
  const Model &M = MOD[m]; tle_t tle = to_tle(el); tle.xndt2o = nd; tle.xndd6o = ndd;
  if (want_show()) show(fmt("%s %s ndot/2 %g nddot/6 %g", M.name, desc(el, ts).c_str(), nd, ndd));
  label(M.name); label_if(ts < 0, "before epoch");
  double p[N_SAT_PARAMS], r[3], v[3], rr[3], rv[3], info[10] = {0};
  M.init(p, &tle); int rc_ = M.prop(ts, &tle, p, r, v), ref;
  if (m == 0) ref = ref_sgp(el, nd, ndd, ts, rr, rv, info);
  else { ref_model = 8; ref = ref_sgp4(el, ts, rr, rv, info, m == 4); ref_model = 4; }
  if (m && m != 4) label(info[2] ? "SGP8 simplified drag" : "SGP8 full drag");
  if (m == 0 && ref == 2) { CHECK(rc_ < 0 && rc_ > -3, "SGP: mean motion negative and result %d", rc_); label("no orbit"); nontrivial(); return; }
  if (m && ref == 1 && (std::isfinite(info[3]) ? fabs(fabs(info[3]) - 1) > 1e-2 : m == 2 && !info[2] && info[6] < -1e-3) && !(info[9] > -1e-3 && info[9] < 1e-3)) {
    label("no orbit"); nontrivial();
    CHECK(rc_ < 0 || !finite3(r), "%s: position (%.3f %.3f %.3f) for an orbit that is none (e %.4f, mean motion %g)", M.name, r[0], r[1], r[2], info[3], info[9]);
    return;
  }
  if (ref || !finite3(rr) || (m == 4 && fabs(el[4] - PI_ / 60) < 1e-12) || info[3] > 0.97 || info[3] < -0.5 || info[5] * (1 - info[3]) < 0.9) { label("avoided: no orbit"); return; }
  CHECK(rc_ == 0 || rc_ == -3 || rc_ == -4, "result %d, the report has a position", rc_);
  nontrivial();
  double days = fabs(ts) / 1440, amp = 1 / std::max(1e-3, 1 - fabs(info[3])), tol = (1e-4 + 1e-5 * days) * amp * std::max(1.0, info[5]);
  if (m == 4 && el[4] < 1e-3) tol += 0.05 * amp;
  if (m == 0) tol += 1e-4 * info[5] * amp * amp;
  if ((getenv("CALIB") && *getenv("CALIB"))) { static double mx[5][2]; double q = dist(r, rr) / tol, w = dist(v, rv) / tol / 0.07 / amp; if (q > mx[m][0] || w > mx[m][1]) { mx[m][0] = std::max(q, mx[m][0]); mx[m][1] = std::max(w, mx[m][1]); fprintf(stderr, "%s %.4f %.4f d=%.3g tol=%.3g e %.6f %s\n", M.name, q, w, dist(r, rr), tol, info[3], S().show.c_str()); } return; }
  CHECK(dist(r, rr) <= tol, "%s: position (%.6f %.6f %.6f), report (%.6f %.6f %.6f): %.6f km apart (tolerance %.6f)", M.name, r[0], r[1], r[2], rr[0], rr[1], rr[2], dist(r, rr), tol);
  CHECK(dist(v, rv) <= tol * 0.07 * amp, "%s: velocity (%.7f %.7f %.7f), report (%.7f %.7f %.7f) km/min", M.name, v[0], v[1], v[2], rv[0], rv[1], rv[2]);
}
static Reg r9("report3", []() {
  static const int W[] = {0, 0, 2, 2, 2, 4, 4}; int m = W[*irange(0, 6)];
  El x = MOD[m].deep ? g_deep() : g_near();
  Toks t; t.push_back(m); Toks e = enc(x, {g_t(*irange(0, 3) ? 10 : 40)}); t.insert(t.end(), e.begin(), e.end());
  double nd = *irange(0, 4) ? *urange(-1, 1) * *logrange(1e-6, 0.05) : 0; t.push_back(d2t(nd * 2 * PI_ / (1440.0 * 1440))); t.push_back(d2t(*irange(0, 2) ? *urange(-1, 1) * 1e-3 * nd * 2 * PI_ / (1440.0 * 1440 * 1440) : 0));
  return t; }, body_report3);
PBT_MAIN
