// C21 / C22: HEALPix against an independent implementation of the published projection (Gorski et al. 2005,
// Calabretta & Roukema 2007) in long double / 128-bit integers.
#include "pbt.hpp"
#include "chealpix.h"
#include <algorithm>
using namespace pbt;
typedef long double ld;
typedef __int128 i128;
static const ld PI_L = 3.14159265358979323846264338327950288L;

struct Fxy { int face; int64_t x, y; };
static const int ROW[12] = {2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4};
static const int COL[12] = {1, 3, 5, 7, 0, 2, 4, 6, 1, 3, 5, 7};

// plane coordinate y: 0.75 z in the equatorial zone, +-(1 - sqrt(3(1-|z|))/2) in the caps
static ld plane_y(ld z, ld sth) {
  ld za = fabsl(z);
  if (za <= 2.0L / 3) return 0.75L * z;
  ld omz = za > 0.9L ? sth * sth / (1 + za) : 1 - za;
  ld y = 1 - sqrtl(3 * omz) / 2;
  return z < 0 ? -y : y;
}
// cell of plane coordinates (tt in [0,4), y in [-1,1]); face-local x grows to the north-east, y to the north-west
static Fxy cell(int64_t n, ld tt, ld y) {
  tt = fmodl(tt, 4); if (tt < 0) tt += 4; if (tt >= 4) tt = 0;
  if (y > 1) y = 2 - y;
  if (y < -1) y = -2 - y;
  ld ay = fabsl(y);
  Fxy f;
  if (ay <= 0.5L) {
    ld a = tt + 0.5L - y, b = tt + 0.5L + y;  // ascending / descending edge coordinates, one unit per face
    int ia = (int)floorl(a), ib = (int)floorl(b);
    ld fa = a - ia, fb = b - ib;
    if (ia == ib) f.face = (ia & 3) + 4;
    else if (ia < ib) f.face = ia & 3;
    else f.face = (ib & 3) + 8;
    f.x = (int64_t)floorl(fb * n); f.y = n - 1 - (int64_t)floorl(fa * n);
  } else {
    ld s = 2 * (1 - ay);
    int q = (int)floorl(tt); if (q > 3) q = 3;
    ld tp = tt - q;
    int64_t u = (int64_t)floorl(tp * s * n), v = (int64_t)floorl((1 - tp) * s * n);
    if (u > n - 1) u = n - 1;
    if (v > n - 1) v = n - 1;
    if (y > 0) { f.face = q; f.x = n - 1 - v; f.y = n - 1 - u; }
    else { f.face = q + 8; f.x = u; f.y = v; }
  }
  f.x = std::min(std::max<int64_t>(f.x, 0), n - 1); f.y = std::min(std::max<int64_t>(f.y, 0), n - 1);
  return f;
}
static int64_t to_nest(int64_t n, const Fxy &f) {
  int64_t p = 0;
  for (int b = 0; b < 31; b++) { p |= ((f.x >> b) & 1) << (2 * b); p |= ((f.y >> b) & 1) << (2 * b + 1); }
  return (int64_t)f.face * n * n + p;
}
static Fxy from_nest(int64_t n, int64_t p) {
  Fxy f; f.face = (int)(p / (n * n)); p %= n * n; f.x = f.y = 0;
  for (int b = 0; b < 31; b++) { f.x |= ((p >> (2 * b)) & 1) << b; f.y |= ((p >> (2 * b + 1)) & 1) << b; }
  return f;
}
static int64_t ring_of(int64_t n, const Fxy &f) { return ROW[f.face] * n - f.x - f.y - 1; }  // 1 .. 4n-1
static int64_t ring_len(int64_t n, int64_t i) { return i < n ? 4 * i : i > 3 * n ? 4 * (4 * n - i) : 4 * n; }
static int64_t ring_start(int64_t n, int64_t i) {  // pixels before ring i
  if (i <= n) return 2 * i * (i - 1);
  if (i <= 3 * n) return 2 * n * (n - 1) + (i - n) * 4 * n;
  int64_t k = 4 * n - i; return 12 * n * n - 2 * k * (k + 1);
}
static int64_t to_ring(int64_t n, const Fxy &f) {
  int64_t i = ring_of(n, f), len = ring_len(n, i), nr = len / 4;
  // in-ring index: the centre's longitude is (j - 1/2) or j steps of (2 pi / len)
  int64_t num = COL[f.face] * nr + f.x - f.y;  // twice the longitude of the centre, in steps
  int64_t j;
  j = num & 1 ? (num - 1) / 2 : num / 2;  // half-step rings have odd num, the others even: exact either way
  j = ((j % len) + len) % len;
  return ring_start(n, i) + j;
}
// ring and in-ring index of a RING pixel (integer arithmetic only)
static void ring_dec(int64_t n, int64_t p, int64_t &i, int64_t &j) {
  int64_t lo = 1, hi = 4 * n - 1;
  while (lo < hi) { int64_t m = (lo + hi + 1) / 2; if (ring_start(n, m) <= p) lo = m; else hi = m - 1; }
  i = lo; j = p - ring_start(n, lo);
}
struct Ctr { ld z, s, phi; };  // z, sin(theta), longitude
static Ctr ring_centre(int64_t n, int64_t i, int64_t j) {
  Ctr c; ld N = n;
  if (i < n || i > 3 * n) {
    ld k = i < n ? i : 4 * n - i, t = k * k / (3 * N * N);
    c.z = i < n ? 1 - t : t - 1; c.s = sqrtl(t * (2 - t));
    c.phi = (j + 0.5L) * PI_L / 2 / k;
  } else {
    c.z = (2 * N - i) * 2 / (3 * N); c.s = sqrtl((1 - c.z) * (1 + c.z));
    c.phi = (((i - n) & 1) ? (ld)j : j + 0.5L) * PI_L / 2 / N;
  }
  return c;
}
static ld angdist(const ld a[3], const ld b[3]) {
  ld c[3] = {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
  return atan2l(sqrtl(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]), a[0] * b[0] + a[1] * b[1] + a[2] * b[2]);
}
static void cvec(const Ctr &c, ld v[3]) { v[0] = c.s * cosl(c.phi); v[1] = c.s * sinl(c.phi); v[2] = c.z; }
static void avec(double th, double ph, ld v[3]) { v[0] = sinl(th) * cosl(ph); v[1] = sinl(th) * sinl(ph); v[2] = cosl(th); }

struct Cand { std::set<int64_t> nest, ring; };
static Cand cands(int64_t n, ld tt, ld y, ld eps, bool pow2) {
  Cand c; ld d = eps / n, s = fabsl(y) > 0.5L ? std::max(2 * (1 - fabsl(y)) - 2 * d, 0.0L) : 1;
  ld dt = s < 4 * d ? 4 : d / s;
  std::vector<ld> ts = {tt, tt - dt, tt + dt};
  if (dt >= 0.2L) for (int k = 0; k < 32; k++) ts.push_back(k / 8.0L + 0.0625L);
  for (ld t : ts) for (int a = -1; a <= 1; a++) {
    Fxy f = cell(n, t, y + a * d);
    if (pow2) c.nest.insert(to_nest(n, f));
    c.ring.insert(to_ring(n, f));
  }
  return c;
}
static bool ispow2(int64_t n) { return (n & (n - 1)) == 0; }

// ---- generators -----------------------------------------------------------------------------------
static double g_theta() {
  const double P = 3.141592653589793, A = acos(2.0 / 3), B = acos(-2.0 / 3);
  int k = (int)*irange(0, 9);
  double t;
  if (k < 5) t = acos(*urange(-1, 1));
  else if (k < 7) t = *near({0, P, P / 2, A, B, acos(0.99), acos(-0.99)}, 0.3);
  else if (k == 7) t = *logrange(1e-12, 3);
  else if (k == 8) t = P - *logrange(1e-12, 3);
  else t = *urange(0, P);
  return std::min(std::max(t, 0.0), P);
}
static double g_phi() {
  const double P = 3.141592653589793;
  switch (*irange(0, 4)) {
    case 0: case 1: return *urange(0, 2 * P);
    case 2: return *urange(-2 * P, 6 * P);
    default: return *near({0, P / 2, P, 3 * P / 2, 2 * P, -P, -P / 2, P / 4, 3 * P / 4, 4 * P}, 0.3);
  }
}
static int64_t g_nside(bool wide, bool anyn) {
  int64_t top = wide ? 29 : 13;
  if (anyn && *irange(0, 2) == 0) {
    if (*irange(0, 1)) return *irange(1, 50);
    int64_t m = (int64_t)exp(*urange(0, log((double)((int64_t)1 << top))));
    return std::max<int64_t>(1, std::min(m, (int64_t)1 << top));
  }
  return (int64_t)1 << *irange(0, top);
}
static int64_t g_pix(int64_t n) {
  int64_t np = 12 * n * n, ncap = 2 * n * (n - 1), p;
  switch (*irange(0, 5)) {
    case 0: p = *irange(0, std::min<int64_t>(np - 1, 60)); break;
    case 1: p = np - 1 - *irange(0, std::min<int64_t>(np - 1, 60)); break;
    case 2: p = *rc::gen::elementOf(std::vector<int64_t>{ncap, np - ncap, np / 2, n * n, 4 * n * n, 8 * n * n, 2 * n * n}) + *irange(-4 * n - 2, 4 * n + 2); break;
    case 3: { // first or last pixels of a ring
      int64_t i = *irange(1, 4 * n - 1); p = ring_start(n, i) + (*irange(0, 1) ? 0 : ring_len(n, i) - 1) + *irange(-1, 1); break; }
    default: p = *irange(0, np - 1);
  }
  return std::min(std::max<int64_t>(p, 0), np - 1);
}
static Toks gen_pos(bool wide) {
  // half of the positions are placed on or next to a cell edge or corner
  int64_t n = g_nside(wide, true); double th = g_theta(), ph = g_phi();
  if (*irange(0, 3) == 0) {
    int64_t p = g_pix(n), i, j; ring_dec(n, p, i, j); Ctr c = ring_centre(n, i, j);
    int64_t len = ring_len(n, i); ld step = 2 * PI_L / len;
    static const ld off[] = {-0.5L, -0.499999L, -0.25L, 0, 0.25L, 0.499999L, 0.5L};
    ld phi = c.phi + step * off[*irange(0, 6)];
    ld dz = 2.0L / 3 / n * off[*irange(0, 6)] * (i < n ? (ld)i / n : i > 3 * n ? (ld)(4 * n - i) / n : 1);
    ld z = std::min(std::max(c.z + dz, (ld)-1), (ld)1);
    th = std::min(std::max((double)acosl(z), 0.0), 3.141592653589793); ph = (double)phi;
  }
  return {n, d2t(th), d2t(ph), *irange(-3, 3)};
}
static Toks gen_pix(bool wide, bool anyn) { int64_t n = g_nside(wide, anyn); return {n, g_pix(n)}; }

// ---- C21 ------------------------------------------------------------------------------------------
template <bool W> static int64_t a2r(int64_t n, double t, double p) {
  if (W) { int64_t r = -7; ang2pix_ring64(n, t, p, &r); return r; } long r = -7; ang2pix_ring(n, t, p, &r); return r; }
template <bool W> static int64_t a2n(int64_t n, double t, double p) {
  if (W) { int64_t r = -7; ang2pix_nest64(n, t, p, &r); return r; } long r = -7; ang2pix_nest(n, t, p, &r); return r; }
template <bool W> static int64_t v2r(int64_t n, const double *v) {
  if (W) { int64_t r = -7; vec2pix_ring64(n, v, &r); return r; } long r = -7; vec2pix_ring(n, v, &r); return r; }
template <bool W> static int64_t v2n(int64_t n, const double *v) {
  if (W) { int64_t r = -7; vec2pix_nest64(n, v, &r); return r; } long r = -7; vec2pix_nest(n, v, &r); return r; }

static std::string setstr(const std::set<int64_t> &s) { std::string o; for (int64_t x : s) o += std::to_string(x) + " "; return o; }

template <bool W> static void body_pos(const Toks &t) {
  In in(t); int64_t n = in.i64(); double th = in.d(), ph = in.d(); int turns = in.i32();
  bool p2 = ispow2(n);
  ld z = cosl(th), s = sinl(th), y = plane_y(z, s), tt = (ld)ph / (PI_L / 2);
  ld eps = W ? 2e-5L : 4e-4L;
  Cand c = cands(n, tt, y, eps, p2);
  if (want_show()) show(fmt("nside=%lld theta=%.17g phi=%.17g", (long long)n, th, ph));
  nontrivial(true);
  bool exact = c.ring.size() == 1;
  label(exact ? "inside a cell" : "on a cell edge");
  label(fabsl(z) > 2.0L / 3 ? "polar cap" : "equatorial belt");
  label_if(ph < 0 || ph > 6.3, "longitude outside one turn"); label_if(!p2, "nside not a power of 2"); label_if(n > 8192, "nside above 8192");
  int64_t np = 12 * n * n;
  auto chk = [&](int64_t got, const std::set<int64_t> &ok, const char *what) {
    CHECK(got >= 0 && got < np, "%s nside=%lld theta=%.17g phi=%.17g: pixel %lld not in [0,%lld)", what, (long long)n, th, ph, (long long)got, (long long)np);
    CHECK(ok.count(got), "%s nside=%lld theta=%.17g phi=%.17g: pixel %lld, the position is in %s", what, (long long)n, th, ph, (long long)got, setstr(ok).c_str());
  };
  int64_t r = a2r<W>(n, th, ph);
  chk(r, c.ring, "ang2pix_ring");
  if (p2) {
    int64_t q = a2n<W>(n, th, ph);
    chk(q, c.nest, "ang2pix_nest");
    if (n > 1) {
      int64_t q1 = a2n<W>(n / 2, th, ph);
      Cand c1 = cands(n / 2, tt, y, eps, true);
      CHECK(q1 == q / 4 || (c1.nest.count(q1) && c1.nest.size() > 1), "nested pixel %lld at nside %lld is not the parent of %lld (theta=%.17g phi=%.17g)", (long long)q1, (long long)n / 2, (long long)q, th, ph);
    }
  }
  // full turns
  double ph2 = ph + turns * 6.283185307179586476925;
  int64_t r2 = a2r<W>(n, th, ph2); chk(r2, c.ring, "ang2pix_ring after full turns");
  if (p2) chk(a2n<W>(n, th, ph2), c.nest, "ang2pix_nest after full turns");
  // vectors of any length
  double v[3]; ang2vec(th, ph, v);
  ld vv[3]; avec(th, ph, vv);
  for (int k = 0; k < 3; k++) CHECK(fabsl(v[k] - vv[k]) < 1e-14L, "ang2vec(%.17g,%.17g)[%d] = %.17g", th, ph, k, v[k]);
  double t2, p2_; vec2ang(v, &t2, &p2_);
  CHECK(t2 >= 0 && t2 <= 3.1415926535897936 && p2_ >= 0 && p2_ <= 6.2831853071795872, "vec2ang out of range: %.17g %.17g", t2, p2_);
  ld w[3]; avec(t2, p2_, w);
  CHECK(angdist(vv, w) < 1e-14L, "vec2ang(ang2vec(%.17g,%.17g)) = %.17g,%.17g", th, ph, t2, p2_);
  double scale = ldexp(1.0, 3 * turns);
  for (int k = 0; k < 3; k++) v[k] *= scale;
  // the vector as stored may sit in a neighbouring cell: judge the vector itself
  ld len = sqrtl((ld)v[0] * v[0] + (ld)v[1] * v[1] + (ld)v[2] * v[2]);
  ld vz = v[2] / len, vs = sqrtl((ld)v[0] * v[0] + (ld)v[1] * v[1]) / len, vtt = atan2l(v[1], v[0]) / (PI_L / 2);
  Cand cv = cands(n, vtt, plane_y(vz, vs), eps, p2);
  chk(v2r<W>(n, v), cv.ring, "vec2pix_ring");
  if (p2) chk(v2n<W>(n, v), cv.nest, "vec2pix_nest");
}
static Reg R1("pos32", []() { return gen_pos(false); }, body_pos<false>);
static Reg R2("pos64", []() { return gen_pos(true); }, body_pos<true>);

template <bool W> static void body_pix(const Toks &t) {
  In in(t); int64_t n = in.i64(), p = in.i64(); bool p2 = ispow2(n);
  if (want_show()) show(fmt("nside=%lld pixel=%lld", (long long)n, (long long)p));
  nontrivial(true);
  int64_t i, j; ring_dec(n, p, i, j);
  label(i < n || i > 3 * n ? "ring pixel in a cap" : "ring pixel in the belt"); label_if(i == n || i == 3 * n, "ring pixel on the cap boundary"); label_if(!p2, "nside not a power of 2"); label_if(n > 8192, "nside above 8192");
  ld tol = (W ? 1e-5L : 3e-4L) / n + 1e-15L;
  for (int nest = 0; nest <= (p2 ? 1 : 0); nest++) {
    Ctr c;
    if (nest) { Fxy f = from_nest(n, p); int64_t rp = to_ring(n, f), a, b; ring_dec(n, rp, a, b); c = ring_centre(n, a, b); }
    else c = ring_centre(n, i, j);
    ld cv[3]; cvec(c, cv);
    double th, ph, v[3]; int64_t back;
    if (W) { if (nest) { pix2ang_nest64(n, p, &th, &ph); pix2vec_nest64(n, p, v); } else { pix2ang_ring64(n, p, &th, &ph); pix2vec_ring64(n, p, v); } }
    else { if (nest) { pix2ang_nest(n, p, &th, &ph); pix2vec_nest(n, p, v); } else { pix2ang_ring(n, p, &th, &ph); pix2vec_ring(n, p, v); } }
    const char *nm = nest ? "nest" : "ring";
    CHECK(th >= 0 && th <= 3.1415926535897936, "pix2ang_%s(%lld,%lld): theta %.17g", nm, (long long)n, (long long)p, th);
    ld av[3]; avec(th, ph, av);
    CHECK(angdist(av, cv) <= tol, "pix2ang_%s(%lld,%lld) = %.17g,%.17g; centre is at z=%.18Lg phi=%.18Lg", nm, (long long)n, (long long)p, th, ph, c.z, c.phi);
    ld pv[3] = {v[0], v[1], v[2]};
    CHECK(fabsl(v[0] * (ld)v[0] + v[1] * (ld)v[1] + v[2] * (ld)v[2] - 1) < 1e-12L, "pix2vec_%s(%lld,%lld) not a unit vector", nm, (long long)n, (long long)p);
    CHECK(angdist(pv, cv) <= tol, "pix2vec_%s(%lld,%lld) = %.17g,%.17g,%.17g", nm, (long long)n, (long long)p, v[0], v[1], v[2]);
    back = nest ? a2n<W>(n, th, ph) : a2r<W>(n, th, ph);
    CHECK(back == p, "ang2pix_%s(pix2ang_%s(%lld,%lld)) = %lld", nm, nm, (long long)n, (long long)p, (long long)back);
    back = nest ? v2n<W>(n, v) : v2r<W>(n, v);
    CHECK(back == p, "vec2pix_%s(pix2vec_%s(%lld,%lld)) = %lld", nm, nm, (long long)n, (long long)p, (long long)back);
  }
}
static Reg R3("pix32", []() { return gen_pix(false, true); }, body_pix<false>);
static Reg R4("pix64", []() { return gen_pix(true, true); }, body_pix<true>);

// ---- C22 ------------------------------------------------------------------------------------------
static void body_conv(const Toks &t) {
  In in(t); int64_t n = in.i64(), p = in.i64(); bool narrow = n <= 8192, p2 = ispow2(n);
  if (want_show()) show(fmt("nside=%lld pixel=%lld", (long long)n, (long long)p));
  nontrivial(true); label(narrow ? "both interfaces" : "64-bit only"); label_if(!p2, "nside not a power of 2");
  int64_t np = 12 * n * n;
  int64_t r = -7, q = -7;
  nest2ring64(n, p, &r); ring2nest64(n, p, &q);
  if (!p2) {
    CHECK(r == -1 && q == -1, "conversion at nside %lld (not a power of 2) gave %lld, %lld", (long long)n, (long long)r, (long long)q);
  } else {
    int64_t er = to_ring(n, from_nest(n, p));
    CHECK(r == er, "nest2ring64(%lld,%lld) = %lld, expected %lld", (long long)n, (long long)p, (long long)r, (long long)er);
    int64_t back = -7; ring2nest64(n, r, &back);
    CHECK(back == p, "ring2nest64(nest2ring64(%lld,%lld)) = %lld", (long long)n, (long long)p, (long long)back);
    CHECK(q >= 0 && q < np, "ring2nest64(%lld,%lld) = %lld", (long long)n, (long long)p, (long long)q);
    CHECK(to_ring(n, from_nest(n, q)) == p, "ring2nest64(%lld,%lld) = %lld", (long long)n, (long long)p, (long long)q);
    back = -7; nest2ring64(n, q, &back);
    CHECK(back == p, "nest2ring64(ring2nest64(%lld,%lld)) = %lld", (long long)n, (long long)p, (long long)back);
    // the same conversion through positions
    double v[3]; int64_t r2; pix2vec_nest64(n, p, v); vec2pix_ring64(n, v, &r2);
    CHECK(r2 == r, "nest2ring64(%lld,%lld) = %lld, through its centre %lld", (long long)n, (long long)p, (long long)r, (long long)r2);
    pix2vec_ring64(n, p, v); vec2pix_nest64(n, v, &r2);
    CHECK(r2 == q, "ring2nest64(%lld,%lld) = %lld, through its centre %lld", (long long)n, (long long)p, (long long)q, (long long)r2);
    double a[2], b[2]; pix2ang_nest64(n, p, a, a + 1); pix2ang_ring64(n, r, b, b + 1);
    ld u[3], w[3]; avec(a[0], a[1], u); avec(b[0], b[1], w);
    CHECK(angdist(u, w) < 1e-5L / n + 1e-15L, "centres of nest %lld and ring %lld differ at nside %lld", (long long)p, (long long)r, (long long)n);
  }
  if (narrow) {
    long r3 = -7, q3 = -7;
    nest2ring(n, p, &r3); ring2nest(n, p, &q3);
    CHECK(r3 == r && q3 == q, "nside %lld pixel %lld: 32-bit nest2ring %ld ring2nest %ld, 64-bit %lld %lld", (long long)n, (long long)p, r3, q3, (long long)r, (long long)q);
    for (int nest = 0; nest <= (p2 ? 1 : 0); nest++) {
      double a[2], b[2], v[3], w[3];
      if (nest) { pix2ang_nest(n, p, a, a + 1); pix2ang_nest64(n, p, b, b + 1); pix2vec_nest(n, p, v); pix2vec_nest64(n, p, w); }
      else { pix2ang_ring(n, p, a, a + 1); pix2ang_ring64(n, p, b, b + 1); pix2vec_ring(n, p, v); pix2vec_ring64(n, p, w); }
      ld x[3], y[3]; avec(a[0], a[1], x); avec(b[0], b[1], y);
      CHECK(angdist(x, y) < 4e-4L / n, "%s centre of pixel %lld at nside %lld: %.17g,%.17g (32-bit) %.17g,%.17g (64-bit)", nest ? "nest" : "ring", (long long)p, (long long)n, a[0], a[1], b[0], b[1]);
      CHECK(fabs(a[1] - b[1]) < 1e-12, "longitude of pixel %lld at nside %lld: %.17g (32-bit) %.17g (64-bit)", (long long)p, (long long)n, a[1], b[1]);
      for (int k = 0; k < 3; k++) CHECK(fabs(v[k] - w[k]) < 4e-4 / n, "pix2vec_%s of pixel %lld at nside %lld differs between the interfaces", nest ? "nest" : "ring", (long long)p, (long long)n);
    }
    CHECK(nside2npix(n) == np, "nside2npix(%lld) = %ld", (long long)n, nside2npix(n));
    CHECK(npix2nside(np) == n, "npix2nside(%lld) = %ld", (long long)np, npix2nside(np));
  }
  CHECK(nside2npix64(n) == np, "nside2npix64(%lld) = %lld", (long long)n, (long long)nside2npix64(n));
  CHECK(npix2nside64(np) == n, "npix2nside64(%lld) = %ld", (long long)np, npix2nside64(np));
}
static Reg R5("conv", []() { return gen_pix(*irange(0, 1), true); }, body_conv);

// ring numbering: decreasing z, increasing longitude
static void body_order(const Toks &t) {
  In in(t); int64_t n = in.i64(), p = in.i64(); int64_t np = 12 * n * n;
  if (p + 1 >= np) p = np - 2;
  if (want_show()) show(fmt("nside=%lld pixels %lld, %lld", (long long)n, (long long)p, (long long)p + 1));
  nontrivial(true);
  int64_t i, j, i2, j2; ring_dec(n, p, i, j); ring_dec(n, p + 1, i2, j2);
  label(i == i2 ? "same ring" : "next ring");
  for (int w = n <= 8192 ? 0 : 1; w < 2; w++) {
    double a[2], b[2];
    if (w) { pix2ang_ring64(n, p, a, a + 1); pix2ang_ring64(n, p + 1, b, b + 1); }
    else { pix2ang_ring(n, p, a, a + 1); pix2ang_ring(n, p + 1, b, b + 1); }
    CHECK(a[1] >= 0 && a[1] < 6.2831853071795872 && b[1] >= 0 && b[1] < 6.2831853071795872, "longitudes of ring pixels %lld.. at nside %lld: %.17g %.17g", (long long)p, (long long)n, a[1], b[1]);
    if (i == i2) {
      CHECK(fabs(a[0] - b[0]) < 1e-4 / n + 1e-15, "pixels %lld and next of one ring at different colatitudes %.17g %.17g", (long long)p, a[0], b[0]);
      CHECK(b[1] > a[1], "ring pixels %lld, %lld at nside %lld: longitudes %.17g, %.17g", (long long)p, (long long)p + 1, (long long)n, a[1], b[1]);
    } else {
      CHECK(b[0] > a[0], "ring pixels %lld, %lld at nside %lld: colatitudes %.17g, %.17g", (long long)p, (long long)p + 1, (long long)n, a[0], b[0]);
      CHECK(b[1] < a[1], "first pixel of ring %lld at nside %lld: longitude %.17g", (long long)i2, (long long)n, b[1]);
    }
  }
}
static Reg R6("order", []() { return gen_pix(*irange(0, 1), true); }, body_order);

// sizes that are no map
static void body_npix(const Toks &t) {
  In in(t); int64_t n = in.i64(), d = in.i64(); int64_t m = 12 * n * n + d;
  if (m < 1) m = 1;
  if (want_show()) show(fmt("npix=%lld", (long long)m));
  nontrivial(true);
  int64_t k = (int64_t)sqrtl((ld)m / 12); int64_t want = -1;
  for (int64_t c = k - 1; c <= k + 1; c++) if (c >= 1 && 12 * (i128)c * c == m) want = c;
  label(want < 0 ? "not a map size" : "a map size");
  CHECK(npix2nside64(m) == want, "npix2nside64(%lld) = %ld, expected %lld", (long long)m, npix2nside64(m), (long long)want);
  if (m <= 805306368) CHECK(npix2nside(m) == want, "npix2nside(%lld) = %ld, expected %lld", (long long)m, npix2nside(m), (long long)want);
}
static Reg R7("npix", []() { int64_t n = g_nside(*irange(0, 1), true); int64_t d = *irange(0, 2) ? *irange(-13, 13) : *irange(-24 * n, 24 * n); return Toks{n, d}; }, body_npix);

PBT_MAIN
