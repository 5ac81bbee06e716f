#include "refsgp4.h"
#include <cmath>
#include <cstring>
namespace {
const double PI = 3.14159265358979323846, TWOPI = 2 * PI, X2O3 = 2.0 / 3.0;
const double RE = 6378.135, XKE = 0.0743669161331734132, J2 = 1.082616e-3, J3 = -2.53881e-6, J4 = -1.65597e-6;
const double J3OJ2 = J3 / J2;
double mod2pi(double x) { x = std::fmod(x, TWOPI); return x < 0 ? x + TWOPI : x; }

struct Deep {
  double e3, ee2, se2, se3, sgh2, sgh3, sgh4, sh2, sh3, si2, si3, sl2, sl3, sl4;
  double xgh2, xgh3, xgh4, xh2, xh3, xi2, xi3, xl2, xl3, xl4, zmol, zmos;
  double dedt, didt, dmdt, dnodt, domdt;
  int irez;
  double d2201, d2211, d3210, d3222, d4410, d4422, d5220, d5232, d5421, d5433, del1, del2, del3, xlamo, xfact;
};

struct Third { double s1, s2, s3, s4, s5, s6, s7, z1, z2, z3, z11, z12, z13, z21, z22, z23, z31, z32, z33; };

// one third body: geometry of its orbit plane with respect to the satellite's
Third third_body(double zcosg, double zsing, double zcosi, double zsini, double zcosh, double zsinh,
                 double cc, double nm, double em, double cosim, double sinim, double cosom, double sinom) {
  Third t;
  double emsq = em * em, betasq = 1 - emsq, rtemsq = std::sqrt(betasq), xnoi = 1 / nm;
  double a1 = zcosg * zcosh + zsing * zcosi * zsinh, a3 = -zsing * zcosh + zcosg * zcosi * zsinh;
  double a7 = -zcosg * zsinh + zsing * zcosi * zcosh, a8 = zsing * zsini;
  double a9 = zsing * zsinh + zcosg * zcosi * zcosh, a10 = zcosg * zsini;
  double a2 = cosim * a7 + sinim * a8, a4 = cosim * a9 + sinim * a10;
  double a5 = -sinim * a7 + cosim * a8, a6 = -sinim * a9 + cosim * a10;
  double x1 = a1 * cosom + a2 * sinom, x2 = a3 * cosom + a4 * sinom;
  double x3 = -a1 * sinom + a2 * cosom, x4 = -a3 * sinom + a4 * cosom;
  double x5 = a5 * sinom, x6 = a6 * sinom, x7 = a5 * cosom, x8 = a6 * cosom;
  t.z31 = 12 * x1 * x1 - 3 * x3 * x3;
  t.z32 = 24 * x1 * x2 - 6 * x3 * x4;
  t.z33 = 12 * x2 * x2 - 3 * x4 * x4;
  t.z1 = 3 * (a1 * a1 + a2 * a2) + t.z31 * emsq;
  t.z2 = 6 * (a1 * a3 + a2 * a4) + t.z32 * emsq;
  t.z3 = 3 * (a3 * a3 + a4 * a4) + t.z33 * emsq;
  t.z11 = -6 * a1 * a5 + emsq * (-24 * x1 * x7 - 6 * x3 * x5);
  t.z12 = -6 * (a1 * a6 + a3 * a5) + emsq * (-24 * (x2 * x7 + x1 * x8) - 6 * (x3 * x6 + x4 * x5));
  t.z13 = -6 * a3 * a6 + emsq * (-24 * x2 * x8 - 6 * x4 * x6);
  t.z21 = 6 * a2 * a5 + emsq * (24 * x1 * x5 - 6 * x3 * x7);
  t.z22 = 6 * (a4 * a5 + a2 * a6) + emsq * (24 * (x2 * x5 + x1 * x6) - 6 * (x4 * x7 + x3 * x8));
  t.z23 = 6 * a4 * a6 + emsq * (24 * x2 * x6 - 6 * x4 * x8);
  t.z1 = t.z1 + t.z1 + betasq * t.z31;
  t.z2 = t.z2 + t.z2 + betasq * t.z32;
  t.z3 = t.z3 + t.z3 + betasq * t.z33;
  t.s3 = cc * xnoi;
  t.s2 = -0.5 * t.s3 / rtemsq;
  t.s4 = t.s3 * rtemsq;
  t.s1 = -15 * em * t.s4;
  t.s5 = x1 * x3 + x2 * x4;
  t.s6 = x2 * x3 + x1 * x4;
  t.s7 = x2 * x4 - x1 * x3;
  return t;
}
// ---- SGP8, SDP8 (Spacetrack Report 3, sections 9 and 10) -------------------------------------------------
// The drag section is the report's rates of mean motion and eccentricity; their time derivatives, which the report
// writes out, come here from Taylor series in time.
struct Jet {
  static const int N = 4;
  long double c[N];
  Jet(long double x = 0) { c[0] = x; for (int k = 1; k < N; k++) c[k] = 0; }
};
Jet operator+(Jet a, const Jet &b) { for (int k = 0; k < Jet::N; k++) a.c[k] += b.c[k]; return a; }
Jet operator-(Jet a, const Jet &b) { for (int k = 0; k < Jet::N; k++) a.c[k] -= b.c[k]; return a; }
Jet operator*(const Jet &a, const Jet &b) { Jet r; for (int k = 0; k < Jet::N; k++) for (int j = 0; j <= k; j++) r.c[k] += a.c[j] * b.c[k - j]; return r; }
Jet operator/(const Jet &a, const Jet &b) { Jet r; for (int k = 0; k < Jet::N; k++) { long double x = a.c[k]; for (int j = 0; j < k; j++) x -= r.c[j] * b.c[k - j]; r.c[k] = x / b.c[0]; } return r; }
Jet jpow(const Jet &a, long double p) { Jet r(std::pow(a.c[0], p)); for (int k = 1; k < Jet::N; k++) { long double x = 0; for (int j = 1; j <= k; j++) x += (p * j - (k - j)) * a.c[j] * r.c[k - j]; r.c[k] = x / (k * a.c[0]); } return r; }
void jsincos(const Jet &a, Jet &s, Jet &c) { s = Jet(std::sin(a.c[0])); c = Jet(std::cos(a.c[0])); for (int k = 1; k < Jet::N; k++) { long double x = 0, y = 0; for (int j = 1; j <= k; j++) { x += j * a.c[j] * c.c[k - j]; y -= j * a.c[j] * s.c[k - j]; } s.c[k] = x / k; c.c[k] = y / k; } }

struct Drag8 { bool simple; double n1, e1, gamma, p, q, nd, ed; };
Drag8 drag8(double no, double ao, double eo, double argpo, double inclo, double bstar) {
  const long double rho = 0.15696615L, B = 2 * bstar / rho, s = 1 + 78.0L / RE, q4 = std::pow(42.0L / RE, 4), k2 = J2 / 2.0L, a3k2 = -J3 / k2, ci = std::cos(inclo), si = std::sin(inclo);
  const long double b1 = k2 * (3 * ci * ci - 1), b2 = -k2 * (1 - ci * ci), b3 = a3k2 * si;
  Jet n(no), e(eo), w(argpo), nd, ed;
  for (int k = 0; k < Jet::N; k++) {
    // sizes: the report keeps n a as it is, with a from Kepler's law
    Jet a = jpow(n / Jet(no), -2.0L / 3) * Jet(ao), e2 = e * e, be2 = Jet(1) - e2, p = a * be2, xi = Jet(1) / (p - Jet(s)), eta = e * xi * Jet(s), h2 = eta * eta;
    Jet ps2 = Jet(1) / (Jet(1) - h2); if (ps2.c[0] < 0) ps2 = Jet(0) - ps2;
    Jet al2 = Jet(1) + e2, d5 = xi * ps2, d1 = d5 / p, sw, cw;
    jsincos(w, sw, cw);
    Jet c2w = cw * cw * Jet(2) - Jet(1), xi2 = xi * xi;
    Jet c0 = Jet(0.5L * B * rho * q4) * n * a * xi2 * xi2 * jpow(ps2, 3.5L) / jpow(al2, 0.5L), c1 = Jet(1.5L) * n * al2 * al2 * c0;
    nd = c1 * (Jet(2) + h2 * (Jet(3) + Jet(34) * e2) + Jet(5) * e * eta * (Jet(4) + h2) + Jet(8.5L) * e2 + d1 * (Jet(12) + h2 * (Jet(36) + Jet(4.5L) * h2)) * Jet(b1)
               + d1 * h2 * (Jet(15) + Jet(2.5L) * h2) * Jet(b2) * c2w + d5 * eta * (Jet(5) + Jet(3.75L) * h2) * Jet(b3) * sw);
    ed = Jet(0) - c0 * (eta * (Jet(4) + h2 + e2 * (Jet(15.5L) + Jet(7) * h2)) + e * (Jet(5) + Jet(15) * h2) + d1 * eta * (Jet(30) + Jet(22.5L) * h2) * Jet(b1)
               + d1 * eta * (Jet(5) + Jet(12.5L) * h2) * Jet(b2) * c2w + d5 * (Jet(1) + h2 * (Jet(6.75L) + h2)) * Jet(b3) * sw);
    Jet wd = Jet(-1.5L * k2 * (1 - 5 * ci * ci)) * n / (p * p);
    for (int j = Jet::N - 1; j > 0; j--) { n.c[j] = nd.c[j - 1] / j; e.c[j] = ed.c[j - 1] / j; w.c[j] = wd.c[j - 1] / j; }
  }
  Drag8 o;
  long double n1 = nd.c[0], n2 = nd.c[1], n3 = 2 * nd.c[2], e1 = ed.c[0], e2 = ed.c[1];
  o.n1 = n1;
  o.simple = std::fabs((double)(n1 / no) * 1440) < 2.16e-3;
  o.e1 = o.simple ? -2.0 / 3 * (double)(n1 / no) * (1 - eo) : (double)e1;
  long double t = n2 * n2 - n1 * n3, pp = (2 * n2 * n2 - n1 * n3) / t, ga = -n3 / (n2 * (pp - 2)), qq = 1 - e2 / (e1 * ga);
  o.p = pp; o.gamma = ga; o.q = qq; o.nd = n1 / (pp * ga); o.ed = e1 / (qq * ga);
  if (e1 == 0) { o.q = 1; o.ed = 0; }  // circular with the perigee at the node or no inclination: the report's law of e(t) has no value, e stays
  return o;
}
// the periodic terms; inclination of the elements, inclination of date for the half-angle's sine
int tail8(double n, double e, double inc, double incd, double argp, double node, double mm, double *r, double *v, double *info) {
  const double k2 = J2 / 2, a3k2 = -J3 / k2, ci = std::cos(inc), si = std::sin(inc), c2 = ci * ci, si2 = std::sin(inc / 2), ci2 = std::cos(inc / 2), sd2 = std::sin(incd / 2);
  mm = mod2pi(mm);
  if (info) { info[3] = e; info[5] = std::pow(XKE / n, X2O3); info[9] = n; }
  if (!(e < 1 && e > -1 && n > 0)) return 1;
  double E = mm + e * std::sin(mm) * (1 + e * std::cos(mm)), sE, cE, z;
  for (int k = 0;; k++) {  // the report stops at a step of 1e-6, before taking it
    sE = std::sin(E); cE = std::cos(E); z = 1 / (1 - e * cE);
    double step = (mm + e * sE - E) * z;
    if (k > 9) { if (std::fabs(step) > 1e-6) return 3; break; }
    if (info) info[8] = std::fabs(std::fabs(step) - 1e-6);
    if (std::fabs(step) <= 1e-6) break;
    E += step;
  }
  double be = std::sqrt(1 - e * e), a = std::pow(XKE / n, X2O3), p = a * be * be, sf = be * sE * z, cf = (cE - e) * z, f = std::atan2(sf, cf);
  if (f < 0) f += TWOPI;
  double sw = std::sin(argp), cw = std::cos(argp), su = sf * cw + cf * sw, cu = cf * cw - sf * sw, s2u = 2 * su * cu, c2u = 2 * cu * cu - 1, rm = p / (1 + e * cf), ar = a / rm;
  double eq = f - mm + e * sf, dr = k2 / 2 / p * ((1 - c2) * c2u - 3 * (3 * c2 - 1)) - a3k2 / 4 * si * su;
  double h = k2 / 2 / (p * p), g = a3k2 / 4 / p, diw = 3 * h * si * c2u - g * e * sw, di = diw * ci;
  double sdu = si2 * (h * (0.5 * (1 - 7 * c2) * s2u - 3 * (1 - 5 * c2) * eq) - g * si * cu * (2 + e * cf)) - 0.5 * g * c2 * e * cw / ci2;
  double lam = f + argp + node + h * (0.5 * (1 + 6 * ci - 7 * c2) * s2u - 3 * ((1 - 5 * c2) + 2 * ci) * eq) + g * si * (ci * e * cw / (1 + ci) - (2 + e * cf) * cu);
  double y4 = sd2 * su + cu * sdu + 0.5 * su * ci2 * di, y5 = sd2 * cu - su * sdu + 0.5 * cu * ci2 * di, rr = rm + dr;
  double rd = n * a * e * sf / be - n * ar * ar * (2 * (k2 / 2 / p) * (1 - c2) * s2u + a3k2 / 4 * si * cu);
  double rv = n * a * a * be / rm - n * ar * ar * dr + a * n * ar * si * diw;
  double w = 1 - y4 * y4 - y5 * y5; if (w < 0) return 4;
  double sl = std::sin(lam), cl = std::cos(lam), x = 2 * (y5 * sl - y4 * cl), y = 2 * (y5 * cl + y4 * sl), q = 2 * std::sqrt(w);
  double U[3] = {y4 * x + cl, sl - y4 * y, y4 * q}, V[3] = {y5 * x - sl, cl - y5 * y, y5 * q};
  for (int k = 0; k < 3; k++) { r[k] = rr * U[k] * RE; v[k] = (rd * U[k] + rv * V[k]) * RE; }
  return 0;
}
}  // namespace

extern "C" double ref_gmst(double jd) {
  double ut = std::fmod(jd + 0.5, 1.0);
  double T = (jd - ut - 2451545.0) / 36525.0;
  double s = 24110.54841 + T * (8640184.812866 + T * (0.093104 - T * 6.2e-6)) + 86400.0 * 1.00273790934 * ut;
  s = std::fmod(s, 86400.0);
  if (s < 0) s += 86400.0;
  return s * TWOPI / 86400.0;
}

extern "C" { double ref_step = 720; int ref_order = 2, ref_model = 4; }
extern "C" int ref_is_deep(const double *el) {
  double e = el[2], i = el[4], n = el[6];
  double c2 = std::cos(i) * std::cos(i), om = 1 - e * e, rt = std::sqrt(om);
  double ak = std::pow(XKE / n, X2O3), d1 = 0.75 * J2 * (3 * c2 - 1) / (rt * om), del = d1 / (ak * ak);
  double ad = ak * (1 - del * del - del * (1. / 3 + 134 * del * del / 81));
  del = d1 / (ad * ad);
  return TWOPI / (n / (1 + del)) >= 225.0;
}

extern "C" int ref_sgp4(const double *el, double t, double *r, double *v, double *info, int force) {
  const double epoch = el[0], bstar = el[1], ecco = el[2], argpo = el[3], inclo = el[4], mo = el[5], nk = el[6], nodeo = el[7];
  for (int k = 0; k < 3; k++) r[k] = v[k] = 0;
  // ---- recover mean motion
  double eccsq = ecco * ecco, omeosq = 1 - eccsq, rteosq = std::sqrt(omeosq), cosio = std::cos(inclo), cosio2 = cosio * cosio, sinio = std::sin(inclo);
  double ak = std::pow(XKE / nk, X2O3), d1 = 0.75 * J2 * (3 * cosio2 - 1) / (rteosq * omeosq);
  double del = d1 / (ak * ak), adel = ak * (1 - del * del - del * (1. / 3 + 134 * del * del / 81));
  del = d1 / (adel * adel);
  double no = nk / (1 + del);
  double ao = adel / (1 - del);
  double con42 = 1 - 5 * cosio2, con41 = -con42 - cosio2 - cosio2;
  double posq = ao * omeosq; posq *= posq;
  double rp = ao * (1 - ecco);
  bool deep = force >= 0 ? force != 0 : TWOPI / no >= 225.0;
  // ---- near-earth initialisation
  double ss = 78.0 / RE + 1.0, qzms2t = std::pow((120.0 - 78.0) / RE, 4);
  bool isimp = rp < 220.0 / RE + 1.0;
  double sfour = ss, qzms24 = qzms2t, perige = (rp - 1) * RE;
  if (perige < 156.0) {
    sfour = perige - 78.0;
    if (perige < 98.0) sfour = 20.0;
    qzms24 = std::pow((120.0 - sfour) / RE, 4);
    sfour = sfour / RE + 1.0;
  }
  double pinvsq = 1 / posq, tsi = 1 / (ao - sfour), eta = ao * ecco * tsi, etasq = eta * eta, eeta = ecco * eta;
  double psisq = std::fabs(1 - etasq), coef = qzms24 * std::pow(tsi, 4), coef1 = coef / std::pow(psisq, 3.5);
  double cc2 = coef1 * no * (ao * (1 + 1.5 * etasq + eeta * (4 + etasq)) + 0.375 * J2 * tsi / psisq * con41 * (8 + 3 * etasq * (8 + etasq)));
  double cc1 = bstar * cc2, cc3 = 0;
  if (ecco >= 1e-4) cc3 = -2 * coef * tsi * J3OJ2 * no * sinio / ecco;
  double x1mth2 = 1 - cosio2;
  double cc4 = 2 * no * coef1 * ao * omeosq * (eta * (2 + 0.5 * etasq) + ecco * (0.5 + 2 * etasq)
      - J2 * tsi / (ao * psisq) * (-3 * con41 * (1 - 2 * eeta + etasq * (1.5 - 0.5 * eeta)) + 0.75 * x1mth2 * (2 * etasq - eeta * (1 + etasq)) * std::cos(2 * argpo)));
  double cc5 = 2 * coef1 * ao * omeosq * (1 + 2.75 * (etasq + eeta) + eeta * etasq);
  double cosio4 = cosio2 * cosio2, temp1 = 1.5 * J2 * pinvsq * no, temp2 = 0.5 * temp1 * J2 * pinvsq, temp3 = -0.46875 * J4 * pinvsq * pinvsq * no;
  double mdot = no + 0.5 * temp1 * rteosq * con41 + 0.0625 * temp2 * rteosq * (13 - 78 * cosio2 + 137 * cosio4);
  double argpdot = -0.5 * temp1 * con42 + 0.0625 * temp2 * (7 - 114 * cosio2 + 395 * cosio4) + temp3 * (3 - 36 * cosio2 + 49 * cosio4);
  double xhdot1 = -temp1 * cosio;
  double nodedot = xhdot1 + (0.5 * temp2 * (4 - 19 * cosio2) + 2 * temp3 * (3 - 7 * cosio2)) * cosio;
  double xpidot = argpdot + nodedot;
  double omgcof = bstar * cc3 * std::cos(argpo), xmcof = 0;
  if (ecco >= 1e-4) xmcof = -X2O3 * coef * bstar / eeta;
  double nodecf = 3.5 * omeosq * xhdot1 * cc1, t2cof = 1.5 * cc1;
  double delmo = std::pow(1 + eta * std::cos(mo), 3), sinmao = std::sin(mo);
  // ---- deep-space initialisation
  Deep d;
  std::memset(&d, 0, sizeof d);
  double gsto = ref_gmst(epoch);
  const double ZES = 0.01675, ZEL = 0.05490, ZNS = 1.19459e-5, ZNL = 1.5835218e-4, RPTIM = 4.37526908801129966e-3;
  if (deep) {
    isimp = true;
    double day = epoch - 2415020.0;
    double xnodce = 4.5236020 - 9.2422029e-4 * day, stem = std::sin(xnodce), ctem = std::cos(xnodce);
    double zcosil = 0.91375164 - 0.03568096 * ctem, zsinil = std::sqrt(1 - zcosil * zcosil);
    double zsinhl = 0.089683511 * stem / zsinil, zcoshl = std::sqrt(1 - zsinhl * zsinhl);
    double gam = 5.8351514 + 0.0019443680 * day;
    double zx = 0.39785416 * stem / zsinil, zy = zcoshl * ctem + 0.91744867 * zsinhl * stem;
    zx = gam + std::atan2(zx, zy) - xnodce;
    double cn = std::cos(nodeo), sn = std::sin(nodeo), co = std::cos(argpo), so = std::sin(argpo);
    Third S = third_body(0.1945905, -0.98088458, 0.91744867, 0.39785416, cn, sn, 2.9864797e-6, no, ecco, cosio, sinio, co, so);
    Third L = third_body(std::cos(zx), std::sin(zx), zcosil, zsinil, zcoshl * cn + zsinhl * sn, sn * zcoshl - cn * zsinhl,
                         4.7968065e-7, no, ecco, cosio, sinio, co, so);
    d.zmol = mod2pi(4.7199672 + 0.22997150 * day - gam);
    d.zmos = mod2pi(6.2565837 + 0.017201977 * day);
    d.se2 = 2 * S.s1 * S.s6; d.se3 = 2 * S.s1 * S.s7;
    d.si2 = 2 * S.s2 * S.z12; d.si3 = 2 * S.s2 * (S.z13 - S.z11);
    d.sl2 = -2 * S.s3 * S.z2; d.sl3 = -2 * S.s3 * (S.z3 - S.z1); d.sl4 = -2 * S.s3 * (-21 - 9 * eccsq) * ZES;
    d.sgh2 = 2 * S.s4 * S.z32; d.sgh3 = 2 * S.s4 * (S.z33 - S.z31); d.sgh4 = -18 * S.s4 * ZES;
    d.sh2 = -2 * S.s2 * S.z22; d.sh3 = -2 * S.s2 * (S.z23 - S.z21);
    d.ee2 = 2 * L.s1 * L.s6; d.e3 = 2 * L.s1 * L.s7;
    d.xi2 = 2 * L.s2 * L.z12; d.xi3 = 2 * L.s2 * (L.z13 - L.z11);
    d.xl2 = -2 * L.s3 * L.z2; d.xl3 = -2 * L.s3 * (L.z3 - L.z1); d.xl4 = -2 * L.s3 * (-21 - 9 * eccsq) * ZEL;
    d.xgh2 = 2 * L.s4 * L.z32; d.xgh3 = 2 * L.s4 * (L.z33 - L.z31); d.xgh4 = -18 * L.s4 * ZEL;
    d.xh2 = -2 * L.s2 * L.z22; d.xh3 = -2 * L.s2 * (L.z23 - L.z21);
    // secular rates
    double ses = S.s1 * ZNS * S.s5, sis = S.s2 * ZNS * (S.z11 + S.z13), sls = -ZNS * S.s3 * (S.z1 + S.z3 - 14 - 6 * eccsq);
    double sghs = S.s4 * ZNS * (S.z31 + S.z33 - 6), shs = -ZNS * S.s2 * (S.z21 + S.z23);
    double sel = L.s1 * ZNL * L.s5, sil = L.s2 * ZNL * (L.z11 + L.z13), sll = -ZNL * L.s3 * (L.z1 + L.z3 - 14 - 6 * eccsq);
    double sghl = L.s4 * ZNL * (L.z31 + L.z33 - 6), shl = -ZNL * L.s2 * (L.z21 + L.z23);
    if (inclo < M_PI / 60) shs = shl = 0;
    double sgs = sghs, dn = 0;
    if (sinio != 0) { sgs -= cosio * shs / sinio; dn = (shs + shl) / sinio; sghl -= cosio * shl / sinio; }
    d.dedt = ses + sel; d.didt = sis + sil; d.dmdt = sls + sll; d.domdt = sgs + sghl; d.dnodt = dn;
    // resonance
    double aonv = std::pow(no / XKE, X2O3);
    if (no >= 8.26e-3 && no <= 9.24e-3 && ecco >= 0.5) d.irez = 2;
    else if (no < 0.0052359877559830 && no > 0.0034906585039887) d.irez = 1;
    if (d.irez == 2) {
      double e = ecco, e2 = eccsq, e3 = e * e2, s2 = sinio * sinio, c = cosio, c2 = cosio2;
      double g201 = -0.306 - (e - 0.64) * 0.440, g211, g310, g322, g410, g422, g520, g533, g521, g532;
      if (e <= 0.65) {
        g211 = 3.616 - 13.2470 * e + 16.2900 * e2;
        g310 = -19.302 + 117.3900 * e - 228.4190 * e2 + 156.5910 * e3;
        g322 = -18.9068 + 109.7927 * e - 214.6334 * e2 + 146.5816 * e3;
        g410 = -41.122 + 242.6940 * e - 471.0940 * e2 + 313.9530 * e3;
        g422 = -146.407 + 841.8800 * e - 1629.014 * e2 + 1083.4350 * e3;
        g520 = -532.114 + 3017.977 * e - 5740.032 * e2 + 3708.2760 * e3;
      } else {
        g211 = -72.099 + 331.819 * e - 508.738 * e2 + 266.724 * e3;
        g310 = -346.844 + 1582.851 * e - 2415.925 * e2 + 1246.113 * e3;
        g322 = -342.585 + 1554.908 * e - 2366.899 * e2 + 1215.972 * e3;
        g410 = -1052.797 + 4758.686 * e - 7193.992 * e2 + 3651.957 * e3;
        g422 = -3581.690 + 16178.110 * e - 24462.770 * e2 + 12422.520 * e3;
        if (e > 0.715) g520 = -5149.66 + 29936.92 * e - 54087.36 * e2 + 31324.56 * e3;
        else g520 = 1464.74 - 4664.75 * e + 3763.64 * e2;
      }
      if (e < 0.7) {
        g533 = -919.22770 + 4988.6100 * e - 9064.7700 * e2 + 5542.21 * e3;
        g521 = -822.71072 + 4568.6173 * e - 8491.4146 * e2 + 5337.524 * e3;
        g532 = -853.66600 + 4690.2500 * e - 8624.7700 * e2 + 5341.4 * e3;
      } else {
        g533 = -37995.780 + 161616.52 * e - 229838.20 * e2 + 109377.94 * e3;
        g521 = -51752.104 + 218913.95 * e - 309468.16 * e2 + 146349.42 * e3;
        g532 = -40023.880 + 170470.89 * e - 242699.48 * e2 + 115605.82 * e3;
      }
      double f220 = 0.75 * (1 + 2 * c + c2), f221 = 1.5 * s2;
      double f321 = 1.875 * sinio * (1 - 2 * c - 3 * c2), f322 = -1.875 * sinio * (1 + 2 * c - 3 * c2);
      double f441 = 35 * s2 * f220, f442 = 39.3750 * s2 * s2;
      double f522 = 9.84375 * sinio * (s2 * (1 - 2 * c - 5 * c2) + 0.33333333 * (-2 + 4 * c + 6 * c2));
      double f523 = sinio * (4.92187512 * s2 * (-2 - 4 * c + 10 * c2) + 6.56250012 * (1 + 2 * c - 3 * c2));
      double f542 = 29.53125 * sinio * (2 - 8 * c + c2 * (-12 + 8 * c + 10 * c2));
      double f543 = 29.53125 * sinio * (-2 - 8 * c + c2 * (12 + 8 * c - 10 * c2));
      const double root22 = 1.7891679e-6, root32 = 3.7393792e-7, root44 = 7.3636953e-9, root52 = 1.1428639e-7, root54 = 2.1765803e-9;
      double x = 3 * no * no * aonv * aonv;
      d.d2201 = x * root22 * f220 * g201; d.d2211 = x * root22 * f221 * g211;
      x *= aonv;
      d.d3210 = x * root32 * f321 * g310; d.d3222 = x * root32 * f322 * g322;
      x *= aonv;
      d.d4410 = 2 * x * root44 * f441 * g410; d.d4422 = 2 * x * root44 * f442 * g422;
      x *= aonv;
      d.d5220 = x * root52 * f522 * g520; d.d5232 = x * root52 * f523 * g532;
      d.d5421 = 2 * x * root54 * f542 * g521; d.d5433 = 2 * x * root54 * f543 * g533;
      d.xlamo = mod2pi(mo + nodeo + nodeo - gsto - gsto);
      d.xfact = mdot + d.dmdt + 2 * (nodedot + d.dnodt - RPTIM) - no;
    } else if (d.irez == 1) {
      double g200 = 1 + eccsq * (-2.5 + 0.8125 * eccsq), g310 = 1 + 2 * eccsq, g300 = 1 + eccsq * (-6 + 6.60937 * eccsq);
      double f220 = 0.75 * (1 + cosio) * (1 + cosio), f311 = 0.9375 * sinio * sinio * (1 + 3 * cosio) - 0.75 * (1 + cosio);
      double f330 = 1.875 * std::pow(1 + cosio, 3);
      double x = 3 * no * no * aonv * aonv;
      d.del2 = 2 * x * f220 * g200 * 1.7891679e-6;
      d.del3 = 3 * x * f330 * g300 * 2.2123015e-7 * aonv;
      d.del1 = x * f311 * g310 * 2.1460748e-6 * aonv;
      d.xlamo = mod2pi(mo + nodeo + argpo - gsto);
      d.xfact = mdot + xpidot - RPTIM + d.dmdt + d.domdt + d.dnodt - no;
    }
  }
  double d2 = 0, d3 = 0, d4 = 0, t3cof = 0, t4cof = 0, t5cof = 0;
  if (!isimp) {
    double c1s = cc1 * cc1;
    d2 = 4 * ao * tsi * c1s;
    double x = d2 * tsi * cc1 / 3;
    d3 = (17 * ao + sfour) * x;
    d4 = 0.5 * x * ao * tsi * (221 * ao + 31 * sfour) * cc1;
    t3cof = d2 + 2 * c1s;
    t4cof = 0.25 * (3 * d3 + cc1 * (12 * d2 + 10 * c1s));
    t5cof = 0.2 * (3 * d4 + 12 * cc1 * d3 + 6 * d2 * d2 + 15 * c1s * (2 * d2 + c1s));
  }
  if (info) { info[0] = deep; info[1] = d.irez; info[2] = isimp; info[6] = perige; info[7] = no; }
  // ---- secular update
  double xmdf = mo + mdot * t, argpm = argpo + argpdot * t, nodem = nodeo + nodedot * t + nodecf * t * t, mm = xmdf;
  double tempa = 1 - cc1 * t, tempe = bstar * cc4 * t, templ = t2cof * t * t;
  if (!isimp) {
    double delomg = omgcof * t, delm = xmcof * (std::pow(1 + eta * std::cos(xmdf), 3) - delmo), x = delomg + delm;
    mm = xmdf + x;
    argpm -= x;
    double t2 = t * t, t3 = t2 * t, t4 = t3 * t;
    tempa = tempa - d2 * t2 - d3 * t3 - d4 * t4;
    tempe += bstar * cc5 * (std::sin(mm) - sinmao);
    templ += t3cof * t3 + t4 * (t4cof + t * t5cof);
  }
  double nm = no, em = ecco, inclm = inclo;
  const bool m8 = ref_model == 8;
  Drag8 g8; double z1 = 0, xmdt1 = 0.5 * temp1 * rteosq * con41, xgdt1 = -0.5 * temp1 * con42;
  if (m8) {
    g8 = drag8(no, ao, ecco, argpo, inclo, bstar);
    if (info) info[2] = deep || g8.simple;
    if (deep || g8.simple) { z1 = 0.5 * g8.n1 * t * t; g8.e1 = -X2O3 * (g8.n1 / no) * (1 - ecco); }
    else {
      double y = 1 - g8.gamma * t, yp = std::pow(y, g8.p);
      z1 = g8.nd * (t + (y * yp - 1) / (g8.gamma * (g8.p + 1)));
      nm = no + g8.nd * (1 - yp); em = ecco + g8.ed * (1 - std::pow(y, g8.q));
      if (info) { info[6] = y; info[7] = g8.gamma; }
    }
    double z7 = 7.0 / 3 * z1 / no;
    argpm = argpo + argpdot * t + z7 * xgdt1; nodem = nodeo + nodedot * t + z7 * xhdot1; mm = mo + mdot * t;
    if (!deep) {
      if (g8.simple) { nm += g8.n1 * t; em += g8.e1 * t; }
      return tail8(nm, em, inclo, inclo, argpm, nodem, mm + z1 + z7 * xmdt1, r, v, info);
    }
  }
  if (deep) {
    em += d.dedt * t; inclm += d.didt * t; argpm += d.domdt * t; nodem += d.dnodt * t; mm += d.dmdt * t;
    if (d.irez) {
      double theta = gsto + t * RPTIM, atime = 0, xli = d.xlamo, xni = no;
      // resonance terms: amplitude sin(m li + k omega - g); Taylor steps in li with the rate of li held
      struct Term { double amp; int m, k; double g; };
      const Term sync[] = {{d.del1, 1, 0, 0.13130908}, {d.del2, 2, 0, 2 * 2.8843198}, {d.del3, 3, 0, 3 * 0.37448087}};
      const double g22 = 5.7686396, g32 = 0.95240898, g44 = 1.8014998, g52 = 1.0508330, g54 = 4.4108898;
      const Term half[] = {{d.d2201, 1, 2, g22}, {d.d2211, 1, 0, g22}, {d.d3210, 1, 1, g32}, {d.d3222, 1, -1, g32}, {d.d4410, 2, 2, g44}, {d.d4422, 2, 0, g44},
                           {d.d5220, 1, 1, g52}, {d.d5232, 1, -1, g52}, {d.d5421, 2, 1, g54}, {d.d5433, 2, -1, g54}};
      const Term *T = d.irez == 1 ? sync : half;
      int nT = d.irez == 1 ? 3 : 10;
      for (;;) {
        double omi = argpo + argpdot * atime, xldot = xni + d.xfact, ft = t - atime, st = ft;
        bool last = true;
        if (std::fabs(ft) > ref_step) { st = ft > 0 ? ref_step : -ref_step; last = false; }
        double dl = xldot * st, dn = 0, fac = st, pw = 1;
        for (int q = 0; q < ref_order; q++) {
          double f = 0;
          for (int i = 0; i < nT; i++) {
            double x = T[i].m * xli + T[i].k * omi - T[i].g, mq = std::pow((double)T[i].m, q);
            f += T[i].amp * mq * (q % 4 == 0 ? std::sin(x) : q % 4 == 1 ? std::cos(x) : q % 4 == 2 ? -std::sin(x) : -std::cos(x));
          }
          f *= pw; pw *= xldot;
          dn += fac * f;
          fac *= st / (q + 2);
          if (q + 1 < ref_order) dl += fac * f;
        }
        xli += dl; xni += dn; atime += st;
        if (last) break;
      }
      nm = xni;
      mm = d.irez == 2 ? xli - 2 * nodem + 2 * theta : xli - nodem - argpm + theta;
    }
  }
  if (m8) { nm += g8.n1 * t; em += g8.e1 * t; mm += z1 + 7.0 / 3 * z1 / no * xmdt1; tempe = templ = 0; }
  if (nm <= 0) return 2;
  double am = deep ? std::pow(XKE / nm, X2O3) * tempa * tempa : ao * tempa * tempa;
  em -= tempe;
  if (!deep && em < 1e-6) em = 1e-6;
  mm += no * templ;
  if (tempa < 0 && !deep) am = -am;
  // ---- lunisolar periodics
  double ep = em, xincp = inclm, argpp = argpm, nodep = nodem, mp = mm;
  if (deep) {
    double zm = d.zmos + ZNS * t, zf = zm + 2 * ZES * std::sin(zm), s = std::sin(zf), f2 = 0.5 * s * s - 0.25, f3 = -0.5 * s * std::cos(zf);
    double pe = d.se2 * f2 + d.se3 * f3, pinc = d.si2 * f2 + d.si3 * f3, pl = d.sl2 * f2 + d.sl3 * f3 + d.sl4 * s;
    double pgh = d.sgh2 * f2 + d.sgh3 * f3 + d.sgh4 * s, ph = d.sh2 * f2 + d.sh3 * f3;
    zm = d.zmol + ZNL * t; zf = zm + 2 * ZEL * std::sin(zm); s = std::sin(zf); f2 = 0.5 * s * s - 0.25; f3 = -0.5 * s * std::cos(zf);
    pe += d.ee2 * f2 + d.e3 * f3; pinc += d.xi2 * f2 + d.xi3 * f3; pl += d.xl2 * f2 + d.xl3 * f3 + d.xl4 * s;
    pgh += d.xgh2 * f2 + d.xgh3 * f3 + d.xgh4 * s; ph += d.xh2 * f2 + d.xh3 * f3;
    xincp += pinc; ep += pe;
    double sinip = std::sin(xincp), cosip = std::cos(xincp);
    if (inclo >= 0.2) {
      ph /= sinip; pgh -= cosip * ph;
      argpp += pgh; nodep += ph; mp += pl;
    } else {
      double sn = std::sin(nodep), cn = std::cos(nodep);
      double alfdp = sinip * sn + ph * cn + pinc * cosip * sn, betdp = sinip * cn - ph * sn + pinc * cosip * cn;
      double xls = mp + argpp + cosip * nodep + pl + pgh - pinc * nodep * sinip;
      double nn = std::atan2(alfdp, betdp), dn = std::fmod(nn - nodep, TWOPI);
      if (dn > PI) dn -= TWOPI;
      if (dn < -PI) dn += TWOPI;
      nodep += dn; mp += pl; argpp = xls - mp - cosip * nodep;
    }
    if (m8) return tail8(nm, ep, inclo, xincp, argpp, nodep, mp, r, v, info);
    sinio = std::sin(xincp); cosio = std::cos(xincp); cosio2 = cosio * cosio;
    con41 = 3 * cosio2 - 1;
  }
  if (info) { info[3] = ep; info[4] = xincp; info[5] = am; }
  if (am <= 0) return 1;
  if (std::fabs(ep) >= 1) return 1;
  double x1mth2b = 1 - cosio2, x7thm1 = 7 * cosio2 - 1;
  double xlcof = -0.25 * J3OJ2 * sinio * (3 + 5 * cosio) / (1 + cosio), aycof = -0.5 * J3OJ2 * sinio;
  // ---- long period periodics, Kepler
  double axnl = ep * std::cos(argpp), x = 1 / (am * (1 - ep * ep)), aynl = ep * std::sin(argpp) + x * aycof;
  double xl = mp + argpp + nodep + x * xlcof * axnl, u = mod2pi(xl - nodep);
  double el2 = axnl * axnl + aynl * aynl;
  if (info) info[8] = el2;
  if (el2 >= 1) return 4;
  // monotone safeguarded solution of F - axnl sin F + aynl cos F = u
  double lo = u - 1, hi = u + 1, F = u;
  for (int k = 0; k < 200; k++) {
    double f = F - axnl * std::sin(F) + aynl * std::cos(F) - u;
    if (f > 0) hi = F; else lo = F;
    double fd = 1 - axnl * std::cos(F) - aynl * std::sin(F), Fn = F - f / fd;
    if (!(Fn > lo && Fn < hi)) Fn = 0.5 * (lo + hi);
    if (std::fabs(Fn - F) < 1e-14 || hi - lo < 1e-14) { F = Fn; break; }
    F = Fn;
  }
  double sE = std::sin(F), cE = std::cos(F), ecose = axnl * cE + aynl * sE, esine = axnl * sE - aynl * cE, pl = am * (1 - el2);
  double rl = am * (1 - ecose), rdotl = std::sqrt(am) * esine / rl, rvdotl = std::sqrt(pl) / rl, betal = std::sqrt(1 - el2);
  x = esine / (1 + betal);
  double sinu = am / rl * (sE - aynl - axnl * x), cosu = am / rl * (cE - axnl + aynl * x), su = std::atan2(sinu, cosu);
  double sin2u = 2 * cosu * sinu, cos2u = 1 - 2 * sinu * sinu, t1 = 0.5 * J2 / pl, t2 = t1 / pl;
  double mrt = rl * (1 - 1.5 * t2 * betal * con41) + 0.5 * t1 * x1mth2b * cos2u;
  su -= 0.25 * t2 * x7thm1 * sin2u;
  double xnode = nodep + 1.5 * t2 * cosio * sin2u, xinc = xincp + 1.5 * t2 * cosio * sinio * cos2u;
  // (rates use the osculating-mean motion of the shrunk orbit)
  double nmm = XKE / std::pow(am, 1.5);
  double mvt = rdotl - nmm * t1 * x1mth2b * sin2u / XKE, rvdot = rvdotl + nmm * t1 * (x1mth2b * cos2u + 1.5 * con41) / XKE;
  double ssu = std::sin(su), csu = std::cos(su), sn = std::sin(xnode), cn = std::cos(xnode), si = std::sin(xinc), ci = std::cos(xinc);
  double xmx = -sn * ci, xmy = cn * ci;
  double U[3] = {xmx * ssu + cn * csu, xmy * ssu + sn * csu, si * ssu}, V[3] = {xmx * csu - cn * ssu, xmy * csu - sn * ssu, si * csu};
  for (int k = 0; k < 3; k++) { r[k] = mrt * U[k] * RE; v[k] = (mvt * U[k] + rvdot * V[k]) * RE * XKE; }  // km, km/min
  if (info) info[9] = mrt;
  return mrt < 1 ? 6 : 0;
}

// ---------------------------------------------------------------- state vectors
namespace {
const double D2R = PI / 180;
void moon_sun(double jd, double *m, double *s) {
  // Meeus, Astronomical Algorithms (2nd ed.), chapters 25 and 47, leading terms
  double T = (jd - 2451545.0) / 36525.0;
  double Lp = 218.3164477 + 481267.88123421 * T, Mp = 134.9633964 + 477198.8675055 * T, D = 297.8501921 + 445267.1114034 * T;
  double F = 93.2720950 + 483202.0175233 * T, L0 = 280.46646 + 36000.76983 * T, M = 357.5291092 + 35999.0502909 * T;
  auto S = [](double d) { return std::sin(d * D2R); };
  auto C = [](double d) { return std::cos(d * D2R); };
  double lon = Lp + 6.288774 * S(Mp) + 1.274027 * S(2 * D - Mp) + 0.658314 * S(2 * D) + 0.213618 * S(2 * Mp) - 0.185166 * S(M) - 0.114332 * S(2 * F);
  double lat = 5.128122 * S(F) + 0.280602 * S(Mp + F) + 0.277693 * S(Mp - F) + 0.173237 * S(2 * D - F);
  double r = 385000560.0 - 20905355.0 * C(Mp) - 3699111.0 * C(2 * D - Mp) - 2955968.0 * C(2 * D) - 569925.0 * C(2 * M);
  m[0] = r * C(lat) * C(lon); m[1] = r * C(lat) * S(lon); m[2] = r * S(lat);
  double sl = L0 + 1.914602 * S(M), sr = 1.495978707e11 * (1 - 0.016708634 * C(M));
  s[0] = sr * C(sl); s[1] = sr * S(sl); s[2] = 0;
}
const double SE0 = 0.397777155931913701597179975942380896684, CE0 = 0.917482062069181825744000384639406458043;
void accel(double jd, const double *p, double *a) {
  double m[3], s[3];
  moon_sun(jd, m, s);
  const double GM[2] = {4.902798e12, 1.3271243994e20};
  double r = std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]);
  for (int k = 0; k < 3; k++) a[k] = -3.9860044e14 * p[k] / (r * r * r);
  for (int b = 0; b < 2; b++) {
    const double *o = b ? s : m;
    double ro = std::sqrt(o[0] * o[0] + o[1] * o[1] + o[2] * o[2]), dl[3], dd = 0;
    for (int k = 0; k < 3; k++) { dl[k] = o[k] - p[k]; dd += dl[k] * dl[k]; }
    dd = std::sqrt(dd);
    for (int k = 0; k < 3; k++) a[k] += GM[b] * (dl[k] / (dd * dd * dd) - o[k] / (ro * ro * ro));
  }
}
}  // namespace
extern "C" void ref_high(const double *st, double epoch, double tmin, int spd, double *r, double *v) {
  double y[6];
  for (int h = 0; h < 6; h += 3) {  // equatorial -> ecliptic
    y[h] = st[h]; y[h + 1] = CE0 * st[h + 1] + SE0 * st[h + 2]; y[h + 2] = -SE0 * st[h + 1] + CE0 * st[h + 2];
  }
  double days = tmin / 1440.0;
  // full steps, then the remainder
  long n = (long)std::ceil(std::fabs(days) * spd);
  double full = (days < 0 ? -1.0 : 1.0) / spd;
  for (long i = 0; i < n; i++) {
    double h = i + 1 < n ? full : days - full * (n - 1);
    double jd = epoch + full * i, hs = h * 86400.0, k1[6], k2[6], k3[6], k4[6], z[6];
    auto f = [](double j, const double *q, double *k) { for (int c = 0; c < 3; c++) k[c] = q[3 + c]; accel(j, q, k + 3); };
    f(jd, y, k1);
    for (int c = 0; c < 6; c++) z[c] = y[c] + hs / 2 * k1[c];
    f(jd + h / 2, z, k2);
    for (int c = 0; c < 6; c++) z[c] = y[c] + hs / 2 * k2[c];
    f(jd + h / 2, z, k3);
    for (int c = 0; c < 6; c++) z[c] = y[c] + hs * k3[c];
    f(jd + h, z, k4);
    for (int c = 0; c < 6; c++) y[c] += hs / 6 * (k1[c] + 2 * k2[c] + 2 * k3[c] + k4[c]);
  }
  r[0] = y[0] / 1e3; r[1] = (CE0 * y[1] - SE0 * y[2]) / 1e3; r[2] = (SE0 * y[1] + CE0 * y[2]) / 1e3;
  v[0] = y[3] * 0.06; v[1] = (CE0 * y[4] - SE0 * y[5]) * 0.06; v[2] = (SE0 * y[4] + CE0 * y[5]) * 0.06;
}

// ---------------------------------------------------------------- SGP (Spacetrack Report 3, section 5)
extern "C" int ref_sgp(const double *el, double nd2, double ndd6, double t, double *r, double *v, double *info) {
  const double e0 = el[2], w0 = el[3], i0 = el[4], m0 = el[5], n0 = el[6], O0 = el[7], k2 = J2 / 2, si = std::sin(i0), ci = std::cos(i0), c2 = ci * ci;
  for (int k = 0; k < 3; k++) r[k] = v[k] = 0;
  double a1 = std::pow(XKE / n0, X2O3), d = 1.5 * k2 / (a1 * a1) * (3 * c2 - 1) / std::pow(1 - e0 * e0, 1.5), a0 = a1 * (1 - d / 3 - d * d - 134.0 / 81 * d * d * d);
  double p0 = a0 * (1 - e0 * e0), q0 = a0 * (1 - e0), wd = 1.5 * k2 * n0 / (p0 * p0) * (5 * c2 - 1), Od = -3 * k2 * n0 / (p0 * p0) * ci;
  double n = n0 + 2 * nd2 * t + 3 * ndd6 * t * t;
  if (n < 0) return 2;
  double a = a0 * std::pow(n0 / n, X2O3), e = a > q0 ? 1 - q0 / a : 1e-6, p = a * (1 - e * e), O = O0 + Od * t, w = w0 + wd * t;
  double L = m0 + w0 + O0 + (n0 + wd + Od) * t + nd2 * t * t + ndd6 * t * t * t;
  double ax = e * std::cos(w), ay = e * std::sin(w) - 0.5 * J3 / J2 * si / p;
  double u = mod2pi(L - 0.25 * J3 / J2 / p * ax * si * (3 + 5 * ci) / (1 + ci) - O), F = u;
  if (info) { info[3] = e; info[5] = a; }
  double el2 = ax * ax + ay * ay;
  if (!(el2 < 1)) return 4;
  double lo = u - 1, hi = u + 1;
  for (int k = 0; k < 200; k++) {
    double f = F - ax * std::sin(F) + ay * std::cos(F) - u;
    if (f > 0) hi = F; else lo = F;
    double Fn = F - f / (1 - ax * std::cos(F) - ay * std::sin(F));
    if (!(Fn > lo && Fn < hi)) Fn = 0.5 * (lo + hi);
    if (std::fabs(Fn - F) < 1e-14 || hi - lo < 1e-14) { F = Fn; break; }
    F = Fn;
  }
  double sF = std::sin(F), cF = std::cos(F), ec = ax * cF + ay * sF, es = ax * sF - ay * cF, pl = a * (1 - el2), rr = a * (1 - ec), rd = XKE * std::sqrt(a) / rr * es, rv = XKE * std::sqrt(pl) / rr, x = es / (1 + std::sqrt(1 - el2));
  double su = a / rr * (sF - ay - ax * x), cu = a / rr * (cF - ax + ay * x), uu = std::atan2(su, cu), s2 = 2 * su * cu, c2u = 1 - 2 * su * su;
  double rk = rr + k2 / 2 / pl * si * si * c2u, uk = uu - k2 / 4 / (pl * pl) * (7 * c2 - 1) * s2, Ok = O + 1.5 * k2 / (pl * pl) * ci * s2, ik = i0 + 1.5 * k2 / (pl * pl) * si * ci * c2u;
  double cO = std::cos(Ok), sO = std::sin(Ok), cI = std::cos(ik), sI = std::sin(ik), s = std::sin(uk), c = std::cos(uk);
  double U[3] = {cO * c - sO * cI * s, sO * c + cO * cI * s, sI * s}, V[3] = {-cO * s - sO * cI * c, -sO * s + cO * cI * c, sI * c};
  for (int k = 0; k < 3; k++) { r[k] = rk * U[k] * RE; v[k] = (rd * U[k] + rv * V[k]) * RE; }
  return 0;
}
