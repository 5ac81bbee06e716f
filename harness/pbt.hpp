// A thin layer over rapidcheck: cases are vectors of 64-bit tokens (doubles bit-cast), so that a shrunk
// failure can be written to a replay file and re-run without the library.
#pragma once
#include <rapidcheck.h>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <time.h>
#include <unistd.h>

namespace pbt {

typedef std::vector<int64_t> Toks;
inline int64_t d2t(double d) { int64_t t; memcpy(&t, &d, 8); return t; }
inline double t2d(int64_t t) { double d; memcpy(&d, &t, 8); return d; }

struct Fail { std::string msg; };
inline std::string fmt(const char *f, ...) {
  char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
#define CHECK(cond, ...) do { if (!(cond)) throw pbt::Fail{std::string(#cond) + ": " + pbt::fmt(__VA_ARGS__)}; } while (0)

// Per-run statistics, filled by the property bodies.
struct Stats {
  uint64_t evals = 0, nt_uncounted = 0;
  std::map<std::string, uint64_t> labels;
  std::unordered_set<uint64_t> hashes;
  std::vector<std::string> samples;
  bool nt = false; std::vector<const char *> lab; std::string show;
  bool replaying = false;
};
inline Stats &S() { static Stats s; return s; }
inline void nontrivial(bool b = true) { S().nt = S().nt || b; }
inline void label(const char *n) { S().lab.push_back(n); }
inline void label_if(bool c, const char *n) { if (c) S().lab.push_back(n); }
inline void show(const std::string &s) { S().show = s; }
inline bool want_show() { return S().samples.size() < 2 || S().replaying; }
inline std::string &scratch() { static std::string s = "."; return s; }

// Reader of the tokens of a case.
struct In {
  const Toks &t; size_t i = 0;
  In(const Toks &x) : t(x) {}
  int64_t i64() { return t.at(i++); }
  int i32() { return (int)t.at(i++); }
  double d() { return t2d(t.at(i++)); }
};

// ---- generators ------------------------------------------------------------------------------------
// whole ranges at every size
inline rc::Gen<int64_t> irange(int64_t lo, int64_t hi) {  // inclusive
  return rc::gen::resize(1000, rc::gen::inRange<int64_t>(lo, hi + 1));
}
// uniform double with 2^40 steps
inline rc::Gen<double> urange(double lo, double hi) {
  return rc::gen::map(irange(0, (int64_t)1 << 40), [=](int64_t k) { return k == ((int64_t)1 << 40) ? hi : lo + (hi - lo) * ((double)k / (double)((int64_t)1 << 40)); });
}
// log-uniform magnitude
inline rc::Gen<double> logrange(double lo, double hi) {
  double a = std::log(lo), b = std::log(hi);
  return rc::gen::map(urange(a, b), [](double x) { return std::exp(x); });
}
inline rc::Gen<double> oneof(std::vector<double> v) { return rc::gen::elementOf(v); }
// a value next to one of the given ones: exact, a few ulps away, or a log-uniform distance away
inline rc::Gen<double> near(std::vector<double> v, double maxd) {
  return rc::gen::exec([=]() {
    double x = *rc::gen::elementOf(v);
    switch (*irange(0, 3)) {
      case 0: return x;
      case 1: { int k = (int)*irange(-4, 4); for (; k > 0; k--) x = std::nextafter(x, 1e300); for (; k < 0; k++) x = std::nextafter(x, -1e300); return x; }
      case 2: return x + *logrange(1e-15, maxd);
      default: return x - *logrange(1e-15, maxd);
    }
  });
}

struct Test { std::string name; std::function<Toks()> gen; std::function<void(const Toks &)> body; };
inline std::vector<Test> &tests() { static std::vector<Test> t; return t; }
struct Reg { Reg(const char *n, std::function<Toks()> g, std::function<void(const Toks &)> b) { tests().push_back({n, g, b}); } };

inline std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o;
}
inline uint64_t hashtoks(const Toks &t) {
  uint64_t h = 1469598103934665603ull;
  for (int64_t x : t) { h ^= (uint64_t)x; h *= 1099511628211ull; h ^= h >> 29; }
  return h;
}
inline double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

inline int run(int argc, char **argv) {
  std::string names, out, replay; double wall = 1e9;
  for (int i = 1; i + 1 < argc; i++) {
    std::string a = argv[i];
    if (a == "--tests") names = argv[i + 1];
    if (a == "--out") out = argv[i + 1];
    if (a == "--replay") replay = argv[i + 1];
    if (a == "--scratch") scratch() = argv[i + 1];
    if (a == "--wall") wall = atof(argv[i + 1]);
  }
  if (!replay.empty()) {
    std::ifstream f(replay); std::string name, line; std::getline(f, name); std::getline(f, line);
    std::istringstream is(line); Toks t; long long x; while (is >> x) t.push_back(x);
    S().replaying = true;
    for (auto &te : tests()) if (te.name == name) {
      alarm(20);
      try { te.body(t); } catch (const Fail &e) { printf("%s\n%s\n", e.msg.c_str(), S().show.c_str()); return 1; }
      return 0;
    }
    printf("no test %s\n", name.c_str()); return 3;
  }
  // the case in progress, for crashes of the code under test
  FILE *cur = out.empty() ? nullptr : fopen((out + ".cur").c_str(), "w+");
  int rv = 0; bool cap = false; std::string failmsg; Toks failt; bool failed = false;
  double t0 = now(), tfail = 0;
  for (auto &te : tests()) {
    if (("," + names + ",").find("," + te.name + ",") == std::string::npos) continue;
    bool ok = rc::check(te.name, [&]() {
      Stats &s = S();
      if (!failed && now() - t0 > wall) { cap = true; return; }
      static const double patience = getenv("VERIF_SHRINK") ? atof(getenv("VERIF_SHRINK")) : 40; if (failed && now() - tfail > patience) return;  // enough shrinking
      const Toks t = te.gen();
      s.nt = false; s.lab.clear(); s.show.clear();
      if (cur) {
        // overwritten in place: cheap, and readable after a crash
        std::string b = te.name + "\n"; for (int64_t x : t) b += std::to_string(x) + " "; b += "\n";
        if (b.size() < 4000) { rewind(cur); fwrite(b.data(), 1, b.size(), cur); fflush(cur); }
      }
      alarm(20);  // a case takes microseconds to a second: one that does not end kills the process, and is found in FILE.cur
      try { te.body(t); }
      catch (const Fail &e) { if (!failed) tfail = now(); failed = true; failt = t; failmsg = e.msg + (s.show.empty() ? "" : "\n" + s.show); RC_FAIL(e.msg); }
      if (!failed) {
        s.evals++;
        std::set<std::string> ls(s.lab.begin(), s.lab.end());
        for (auto &l : ls) s.labels[l]++;
        if (s.nt) {
          if (s.hashes.size() < 40000) { if (s.hashes.insert(hashtoks(t)).second && s.samples.size() < 2 && !s.show.empty()) s.samples.push_back(s.show); }
          // beyond the cap distinctness is still established by the 2^40-step generators, but not counted
        }
      }
    });
    if (!ok) { rv = 1; }
  }
  if (rv == 1 && !failed) { rv = 3; }
  if (cur) fclose(cur);
  if (!out.empty()) {
    FILE *f = fopen(out.c_str(), "w"); Stats &s = S();
    fprintf(f, "{\"evaluations\": %llu, \"nontrivial_uncounted\": %llu, \"cap\": %s, \"labels\": {", (unsigned long long)s.evals, (unsigned long long)s.nt_uncounted, cap ? "true" : "false");
    bool first = true;
    for (auto &l : s.labels) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(l.first).c_str(), (unsigned long long)l.second); first = false; }
    fprintf(f, "}, \"hashes\": ["); first = true;
    for (uint64_t h : s.hashes) { fprintf(f, "%s\"%016llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
    fprintf(f, "], \"samples\": ["); first = true;
    for (auto &x : s.samples) { fprintf(f, "%s\"%s\"", first ? "" : ", ", jesc(x).c_str()); first = false; }
    fprintf(f, "], \"fail\": ");
    if (failed) {
      fprintf(f, "{\"msg\": \"%s\", \"tokens\": [", jesc(failmsg).c_str());
      for (size_t i = 0; i < failt.size(); i++) fprintf(f, "%s\"%lld\"", i ? "," : "", (long long)failt[i]);
      fprintf(f, "]}");
    } else fprintf(f, "null");
    fprintf(f, "}\n"); fclose(f);
  }
  return rv;
}
}  // namespace pbt
#define PBT_MAIN int main(int c, char **v) { return pbt::run(c, v); }
