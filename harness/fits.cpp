// C23: HEALPix maps in FITS files.
#include "pbt.hpp"
#include "chealpix.h"
#include <fitsio.h>
#include <algorithm>
#include <cfloat>
#include <sys/resource.h>
#include <sys/wait.h>
#include <fcntl.h>
using namespace pbt;
static const float NULLV = (float)-1.6375e30;

static uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
static float bits(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static uint32_t ubits(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
// pixel values: any bit pattern, small integers, extremes
static float value(uint64_t seed, long i, int kind) {
  uint64_t r = mix(seed * 1000003 + i);
  int k = kind == 4 ? (int)((r >> 40) % 4) : kind;
  switch (k) {
    case 0: return bits((uint32_t)r);
    case 1: return (float)(int)(r % 2001) - 1000;
    case 2: { static const float v[] = {FLT_MAX, -FLT_MAX, FLT_MIN, -FLT_MIN, 0.f, -0.f, 1.f, -1.f, INFINITY, -INFINITY, NAN, 1e-40f, -1e-45f, NULLV, 3e38f, 1.17549449e-38f}; return v[r % 16]; }
    default: return (float)i;
  }
}
static std::vector<float> make(uint64_t seed, long n, int kind) { std::vector<float> v(n); for (long i = 0; i < n; i++) v[i] = value(seed, i, kind); return v; }

static std::string path() { return scratch() + "/map.fits"; }
// runs f in a child: exit code, or -signal
static int child(std::function<int()> f) {
  fflush(stdout);
  pid_t p = fork();
  if (!p) {
    int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1);
    struct rlimit rl = {3ull << 30, 3ull << 30}; setrlimit(RLIMIT_AS, &rl); rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); alarm(60);
    _exit(f());
  }
  int st; waitpid(p, &st, 0);
  return WIFSIGNALED(st) ? -WTERMSIG(st) : WEXITSTATUS(st);
}
static std::string trim(const char *s) { std::string t = s; while (!t.empty() && t.back() == ' ') t.pop_back(); return t; }

static void compare(const float *m, const std::vector<float> &v) {
  for (size_t i = 0; i < v.size(); i++) {
    if (std::isnan(v[i]) || std::isinf(v[i])) CHECK(ubits(m[i]) == ubits(NULLV), "pixel %zu: undefined value %g read as %g", i, v[i], m[i]);
    else if (v[i] == 0 || fabsf(v[i]) < FLT_MIN) CHECK(m[i] == 0 || m[i] == v[i], "pixel %zu: %g read as %g", i, v[i], m[i]);
    else CHECK(ubits(m[i]) == ubits(v[i]), "pixel %zu of %zu: %.9g read as %.9g", i, v.size(), v[i], m[i]);
  }
}
static void check_file(long nside, bool nest, char cs, const std::vector<float> &v) {
  long n2 = -1; char co[80], ord[80]; memset(co, '#', 79); memset(ord, '#', 79); co[79] = ord[79] = 0;
  float *m = read_healpix_map(path().c_str(), &n2, co, ord);
  CHECK(m != nullptr, "no map read");
  std::unique_ptr<float, void (*)(void *)> g(m, free);
  CHECK(n2 == nside, "nside %ld read as %ld", nside, n2);
  CHECK(trim(ord) == (nest ? "NESTED" : "RING"), "ordering read as '%s'", ord);
  CHECK(trim(co) == std::string(1, cs == 'Q' ? 'C' : cs), "coordinate system %c read as '%s'", cs, co);
  compare(m, v);
  long n3 = -1; memset(ord, '#', 79);
  long np = get_fits_size(path().c_str(), &n3, ord);
  CHECK(np == 12 * nside * nside && n3 == nside && trim(ord) == (nest ? "NESTED" : "RING"), "get_fits_size: %ld pixels, nside %ld, '%s'", np, n3, ord);
}
static void body_rt(const Toks &t) {
  In in(t);
  long n[2]; int nest[2], nst[2], kind[2]; char cs[2]; uint64_t seed[2];
  for (int k = 0; k < 2; k++) { n[k] = in.i64(); nst[k] = in.i32(); nest[k] = nst[k] != 0; cs[k] = "GECQ"[in.i64() & 3]; kind[k] = in.i32(); seed[k] = in.i64(); }
  bool over = in.i64();
  if (want_show()) show(fmt("nside %ld %s %c values kind %d seed %llu%s", n[0], nest[0] ? "NESTED" : "RING", cs[0], kind[0], (unsigned long long)seed[0], over ? fmt(", overwritten by nside %ld %s %c", n[1], nest[1] ? "NESTED" : "RING", cs[1]).c_str() : ""));
  nontrivial();
  label_if(over, "overwriting"); label(nest[0] ? "nested" : "ring"); label_if(n[0] & (n[0] - 1), "nside not a power of 2"); label_if(n[0] >= 64, "over 49000 pixels");
  label(kind[0] == 0 ? "random bit patterns" : kind[0] == 2 ? "extreme values" : "other values");
  unlink(path().c_str());
  std::string ov = "!" + path();
  // writing happens in a child: a failure of the library exits
  auto wr = [&](int k, const std::string &p) {
    std::vector<float> v = make(seed[k], 12 * n[k] * n[k], kind[k]); std::vector<float> w = v;
    int rv = child([&]() { char c[10] = {cs[k], 0}; write_healpix_map(v.data(), n[k], p.c_str(), (char)nst[k], c); return memcmp(v.data(), w.data(), v.size() * 4) ? 9 : 0; });
    CHECK(rv == 0, "writing nside %ld: exit code %d", n[k], rv);
    std::string msg;
    int pp[2]; if (pipe(pp)) return;
    rv = child([&]() { try { check_file(n[k], nest[k], cs[k], w); } catch (Fail &e) { std::string m = e.msg.substr(0, 1500); if (write(pp[1], m.data(), m.size()) < 0) return 4; return 3; } return 0; });
    close(pp[1]); char b[1600]; ssize_t l = rv ? read(pp[0], b, 1599) : 0; close(pp[0]); b[l > 0 ? l : 0] = 0;
    CHECK(rv == 0, "reading nside %ld back: exit code %d %s", n[k], rv, b);
  };
  wr(0, path());
  if (over) wr(1, ov);
  unlink(path().c_str());
}
static long g_n() { return *irange(0, 3) ? 1L << *irange(0, 5) : *irange(0, 5) ? *irange(1, 40) : 1L << *irange(6, 8); }
static Reg r1("roundtrip", []() { Toks t; for (int k = 0; k < 2; k++) { t.push_back(g_n()); t.push_back(*irange(0, 3) ? *irange(0, 1) : *irange(-1, 3)); t.push_back(*irange(0, 3)); t.push_back(*irange(0, 4)); t.push_back(*irange(0, 1 << 30)); } t.push_back(*irange(0, 1)); return t; }, body_rt);

// files that are not maps
static void body_bad(const Toks &t) {
  In in(t); int kind = in.i32(); long nside = in.i64(), rows = in.i64(); uint64_t seed = in.i64(); int fn = in.i32();
  static const char *K[] = {"missing", "empty", "text", "random bytes", "truncated map", "image only", "ASCII table", "no NSIDE", "NSIDE against rows", "string column", "directory", "text NSIDE", "corrupted header"};
  if (want_show()) show(fmt("%s nside %ld rows %ld seed %llu", K[kind], nside, rows, (unsigned long long)seed));
  nontrivial(); label(K[kind]);
  std::string p = path(); unlink(p.c_str());
  int st = 0; fitsfile *f = nullptr; char c[10] = "G"; bool must = true;
  auto put = [&](const std::string &b) { FILE *o = fopen(p.c_str(), "wb"); fwrite(b.data(), 1, b.size(), o); fclose(o); };
  auto table = [&](int type, long nrows, const char *form) {
    char *tt[] = {(char *)"SIGNAL"}, *tf[] = {(char *)form}, *tu[] = {(char *)" "};
    long ax[2] = {0, 0};
    fits_create_file(&f, p.c_str(), &st); fits_create_img(f, SHORT_IMG, 0, ax, &st); fits_create_tbl(f, type, nrows, 1, tt, tf, tu, "T", &st);
  };
  switch (kind) {
    case 0: break;
    case 1: put(""); break;
    case 2: { std::string s; for (int i = 0; i < (int)(seed % 6000); i++) s += "SIMPLE  = T /\n1 25544U 98067A  "[(i * 7 + seed) % 31]; put(s); break; }
    case 3: { std::string s; for (int i = 0; i < (int)(seed % 9000); i++) s += (char)mix(seed + i); put(s); break; }
    case 4: case 12: {
      int n = 1 << (seed % 4); std::vector<float> v(12 * n * n, 1.5f);
      if (child([&]() { write_healpix_map(v.data(), n, p.c_str(), 1, c); return 0; })) throw Fail{"could not write a map"};
      FILE *o = fopen(p.c_str(), "rb"); std::string s(200000, 0); s.resize(fread(&s[0], 1, s.size(), o)); fclose(o);
      if (kind == 4) s.resize(mix(seed) % (2 * 2880));  // within the headers: never a map
      else { must = false; for (int k = 0; k < 1 + (int)(mix(seed) % 6); k++) s[2880 + mix(seed + k + 1) % 2880] = (char)(mix(seed + k + 99) % 96 + 32); }
      put(s); break; }
    case 5: { long ax[2] = {4, 4}; fits_create_file(&f, p.c_str(), &st); fits_create_img(f, FLOAT_IMG, 2, ax, &st); break; }
    case 6: table(ASCII_TBL, rows, "E15.7"); fits_write_key(f, TLONG, "NSIDE", &nside, "", &st); fits_write_key_str(f, "ORDERING", "RING", "", &st); must = fn == 0; break;
    case 7: table(BINARY_TBL, rows, "1E"); break;
    case 8: table(BINARY_TBL, rows, "1E"); fits_write_key(f, TLONG, "NSIDE", &nside, "", &st); fits_write_key_str(f, "ORDERING", "RING", "", &st);
      must = fn == 0 && (nside <= 0 || nside > 100 ? true : rows != 12 * nside * nside); if (nside > 1000000) must = false; break;
    case 9: table(BINARY_TBL, rows, "8A"); fits_write_key(f, TLONG, "NSIDE", &nside, "", &st); fits_write_key_str(f, "ORDERING", "RING", "", &st); must = false; break;
    case 10: p = scratch(); break;
    case 11: table(BINARY_TBL, rows, "1E"); fits_write_key_str(f, "NSIDE", "four", "", &st); fits_write_key_str(f, "ORDERING", "RING", "", &st); break;
  }
  if (f) { fits_close_file(f, &st); if (st) throw Fail{fmt("making the file: status %d", st)}; }
  int rv = child([&]() {
    long n = -1; char a[80], b[80]; a[0] = b[0] = 0;
    if (fn) { get_fits_size(p.c_str(), &n, a); return 50; }
    float *m = read_healpix_map(p.c_str(), &n, a, b);
    if (m) { volatile float x = 0; for (long i = 0; i < 12 * n * n; i++) x = x + m[i]; free(m); return 50; }
    return 51; });
  CHECK(rv >= 0, "%s of a file that is no map (%s, nside %ld, rows %ld) ended with signal %d", fn ? "get_fits_size" : "read_healpix_map", K[kind], nside, rows, -rv);
  if (must) CHECK(rv != 50, "%s accepted a file that is no map (%s, nside %ld, rows %ld)", fn ? "get_fits_size" : "read_healpix_map", K[kind], nside, rows);
  if (rv == 50) label("accepted");
  unlink(path().c_str());
}
static Reg r2("notamap", []() {
  long n = *irange(0, 4) ? *irange(1, 8) : *rc::gen::elementOf(std::vector<long>{0, -1, -4, 50, 8192, 65536, 1L << 29, 1L << 32, 1000000000000L});
  long r = *irange(0, 2) ? 12 * n * n : *irange(0, 800);
  if (r < 0 || r > 40000) r = 12;
  if (!*irange(0, 3)) r = *rc::gen::elementOf(std::vector<long>{0, 1, 3, 6, 12, 24, 48, 96, 192});
  return Toks{*irange(0, 12), n, r, *irange(0, 1 << 30), *irange(0, 1)}; }, body_bad);
PBT_MAIN
