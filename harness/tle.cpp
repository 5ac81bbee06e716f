// C13: two-line elements, written by an independent column formatter and decoded by parse_elements.
#include "pbt.hpp"
#include "norad.h"
#include <algorithm>
using namespace pbt;
extern "C" int DLL_FUNC tle_checksum(const char *);
static const double PI_ = 3.14159265358979323846264338327950288;
typedef long double ld;
typedef std::string str;

// The three number schemes described at get_norad_number.
static char b34(int d) { return "0123456789ABCDEFGHJKLMNPQRSTUVWXYZ"[d]; }
static str super5(int n) {
  if (n < 100000) return fmt("%05d", n);
  if (n < 340000) return str(1, b34(n / 10000)) + fmt("%04d", n % 10000);
  n -= 340000; str s;
  if (n < 32072064) { s = str(1, b34(10 + n % 24)); n /= 24; for (int i = 0; i < 4; i++, n /= 34) s = b34(n % 34) + s; return s; }
  n -= 32072064;
  if (n < 9432960) { s = str(1, b34(10 + n / 10 % 24)) + fmt("%d", n % 10); n /= 240; for (int i = 0; i < 3; i++, n /= 34) s = b34(n % 34) + s; return s; }
  n -= 9432960;
  if (n < 2774400) { s = str(1, b34(10 + n / 100 % 24)) + fmt("%02d", n % 100); n /= 2400; for (int i = 0; i < 2; i++, n /= 34) s = b34(n % 34) + s; return s; }
  n -= 2774400;
  return str(1, b34(n / 24000)) + b34(10 + n / 1000 % 24) + fmt("%03d", n % 1000);
}
static str b36(int64_t v, bool plus) {
  (void)plus; str s; int64_t a = v < 0 ? -v : v;
  for (int i = 0; i < 8; i++, a /= 36) s = str(1, "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[a % 36]) + s;
  return (v < 0 ? "-" : "+") + s;
}
static int own_sum(const str &l) { int s = 0; for (size_t i = 0; i < 68 && i < l.size(); i++) s += l[i] >= '0' && l[i] <= '9' ? l[i] - '0' : l[i] == '-'; return s % 10; }

struct Lines { str a, b; int norad, yr, bul, rev, cls, et; int64_t day; str desig; bool H; ld inc, node, argp, M, ecc, n, ndot, nddot, bstar; int64_t h[6]; };

enum { NTOK = 46 };
static Toks gen() {
  Toks t;
  auto u = [&](int64_t lo, int64_t hi) { t.push_back(*irange(lo, hi)); };
  auto ends = [&](int64_t lo, int64_t hi) { switch (*irange(0, 7)) { case 0: t.push_back(lo); break; case 1: t.push_back(hi); break; case 2: t.push_back(*irange(lo, std::min(hi, lo + 9))); break; default: t.push_back(*irange(lo, hi)); } };
  // 0 catalogue number
  switch (*irange(0, 9)) { case 0: u(0, 99); break; case 1: case 2: u(0, 99999); break; case 3: u(100000, 339999); break; case 4: u(340000, 32412063); break; case 5: u(32412064, 41845023); break; case 6: u(41845024, 44619423); break;
    case 7: u(44619424, 45435423); break; case 8: t.push_back(*rc::gen::elementOf(std::vector<int64_t>{0, 9999, 10000, 99999, 100000, 179999, 180000, 339999, 340000, 32412063, 32412064, 41845023, 41845024, 44619423, 44619424, 45435423})); break; default: u(0, 45435423); }
  u(0, 3);                                  // 1 class
  u(0, 99); u(0, 999); u(0, 17575); u(0, 2);  // 2-5 designator year, launch, piece, blank?
  u(0, 99); ends(100000000, 36699999999LL); // 6 yr, 7 day
  ends(0, 99999999); u(0, 3);               // 8 ndot, 9 its sign
  ends(0, 99999); u(0, 9); u(0, 5);         // 10-12 nddot: mantissa, exponent, forms
  ends(0, 99999); u(0, 9); u(0, 5);         // 13-15 bstar
  u(0, 11); ends(0, 9999);                  // 16 type, 17 bulletin
  ends(0, 1800000); ends(0, 3599999); ends(0, 9999999); ends(0, 3599999); ends(0, 3599999);  // 18-22
  ends(0, 9999999999LL); ends(0, 99999);    // 23 n, 24 rev
  for (int i = 0; i < 6; i++) { if (*irange(0, 2)) u(-2821109907455LL, 2821109907455LL); else t.push_back((int64_t)(*logrange(1, 2.8e12)) * (*irange(0, 1) ? 1 : -1)); }  // 25-30
  u(0, 4);                                  // 31 state vectors?
  u(0, 63);                                 // 32 padding choices
  u(0, 7); u(0, 7);                         // 33, 34 what follows each line
  u(0, 68); u(1, 9); u(0, 2); u(0, 255);    // 35-38 corruption: column, digit change, line, byte
  while (t.size() < NTOK) u(0, 1 << 20);
  return t;
}
static str sci(ld &v, int m, int e, int form) {
  // sdddddSe
  str s; bool neg = form & 1;
  if (form >= 4 && m == 0) { v = 0; return form == 4 ? str(8, ' ') : str(" 00000-0"); }
  if (m == 0) neg = false;
  s = neg ? "-" : form & 2 ? "+" : " ";
  s += fmt("%05d", m);
  bool pos = form == 2 || form == 3 || form == 5;
  if (pos) e %= 4;
  s += form == 3 ? ' ' : pos ? '+' : '-';
  s += fmt("%d", e);
  v = m * 1e-5L * powl(10, s[6] == '-' ? -e : e) * (neg ? -1 : 1);
  return s;
}
static str angle(int64_t a, bool zeros) { return fmt(zeros ? "%03lld.%04lld" : "%3lld.%04lld", (long long)(a / 10000), (long long)(a % 10000)); }
static Lines build(const Toks &t) {
  Lines L; int pad = (int)t[32];
  L.norad = (int)t[0]; L.cls = "UCST"[t[1]];
  L.desig = t[5] == 0 && t[4] % 7 == 0 ? str(8, ' ') : fmt("%02d%03d", (int)t[2], (int)t[3]);
  if (L.desig[0] != ' ') { int p = (int)t[4]; str q; do { q = str(1, (char)('A' + p % 26)) + q; p = p / 26 - 1; } while (p >= 0 && q.size() < 3); L.desig += q; L.desig.resize(8, ' '); }
  L.yr = (int)t[6]; L.day = t[7];
  str num = super5(L.norad);
  if (L.norad < 10000 && (pad & 1)) num = fmt("%5d", L.norad);
  L.H = t[31] == 0;
  L.et = L.H ? 'H' : t[16] < 10 ? (char)('0' + t[16]) : t[16] == 10 ? '0' : ' ';
  L.bul = (int)t[17]; L.rev = (int)t[24];
  str head = num; head += (char)L.cls; head += " " + L.desig + " ";
  head = "1 " + head;
  head += (pad & 2) && L.yr < 10 ? fmt("%2d", L.yr) : fmt("%02d", L.yr);
  head += fmt((pad & 4) ? "%03lld.%08lld " : "%3lld.%08lld ", (long long)(L.day / 100000000), (long long)(L.day % 100000000));
  if (L.H) {
    for (int i = 0; i < 6; i++) L.h[i] = t[25 + i];
    L.a = head + b36(L.h[0], 1) + " " + b36(L.h[1], 1) + " " + b36(L.h[2], 1) + "H " + fmt((pad & 8) ? "%04d" : "%4d", L.bul);
    L.b = "2 " + num + " " + str(24, pad & 32 ? '.' : ' ') + " " + b36(L.h[3], 1) + " " + b36(L.h[4], 1) + " " + b36(L.h[5], 1) + " " + fmt((pad & 16) ? "%05d" : "%5d", L.rev);
  } else {
    int nd = (int)t[8]; bool neg = t[9] == 1 && nd;
    L.ndot = nd * 1e-8L * (neg ? -1 : 1);
    str x1 = sci(L.nddot, (int)t[10], (int)t[11], (int)t[12]), x2 = sci(L.bstar, (int)t[13], (int)t[14], (int)t[15]);
    L.a = head + (neg ? "-" : t[9] == 2 ? "+" : t[9] == 3 ? "0" : " ") + fmt(".%08d ", nd) + x1 + " " + x2 + " " + (char)L.et + " " + fmt((pad & 8) ? "%04d" : "%4d", L.bul);
    L.inc = t[18] * 1e-4L; L.node = t[19] * 1e-4L; L.ecc = t[20] * 1e-7L; L.argp = t[21] * 1e-4L; L.M = t[22] * 1e-4L; L.n = t[23] * 1e-8L;
    L.b = "2 " + num + " " + angle(t[18], pad & 4) + " " + angle(t[19], pad & 4) + " " + fmt("%07d", (int)t[20]) + " " + angle(t[21], pad & 4) + " " + angle(t[22], pad & 4) + " "
        + fmt((pad & 4) ? "%02lld.%08lld" : "%2lld.%08lld", (long long)(t[23] / 100000000), (long long)(t[23] % 100000000)) + fmt((pad & 16) ? "%05d" : "%5d", L.rev);
  }
  if (L.a.size() != 68 || L.b.size() != 68) throw Fail{"harness: wrong line length " + L.a + " " + L.b};
  L.a += (char)('0' + own_sum(L.a)); L.b += (char)('0' + own_sum(L.b));
  return L;
}
static const char *TAIL[] = {"", "\n", "\r\n", " ", "  \n", "\r", "    ", "\n\n"};
static double rel(double a, ld b) { return b == 0 ? fabs(a) : (double)fabsl((a - b) / b); }

static void eq(const tle_t &s, const Lines &L) {
  int y = L.yr < 57 ? L.yr + 2000 : L.yr + 1900;
  // days from 1900 Jan 0 by counting years
  ld jd = 2415019.5L;
  for (int k = 1900; k < y; k++) jd += (k % 4 == 0 && k != 1900) ? 366 : 365;
  jd += L.day * 1e-8L;
  CHECK(fabsl(s.epoch - jd) < 1.2e-9L, "epoch %.9f, the line says %.9Lf", s.epoch, jd);
  CHECK(s.norad_number == L.norad, "%d", s.norad_number);
  CHECK(s.classification == L.cls, "%c", s.classification);
  CHECK(L.desig == s.intl_desig, "'%.9s'", s.intl_desig);
  CHECK(s.ephemeris_type == L.et, "%d", s.ephemeris_type);
  CHECK(s.bulletin_number == L.bul, "%d", s.bulletin_number);
  CHECK(s.revolution_number == L.rev, "%d", s.revolution_number);
  if (L.H) {
    const double *v = &s.xincl;
    for (int i = 0; i < 6; i++) CHECK(rel(v[i], i < 3 ? (ld)L.h[i] : L.h[i] * 1e-4L) < 1e-15, "component %d is %.6f, encoded %lld", i, v[i], (long long)L.h[i]);
    return;
  }
  ld d = PI_ / 180, rev = 2 * PI_;
  const ld T = 3e-15L;
  CHECK(rel(s.xincl, L.inc * d) < T, "%.17g", s.xincl / (double)d); CHECK(rel(s.xnodeo, L.node * d) < T, "%.17g", s.xnodeo / (double)d);
  CHECK(rel(s.omegao, L.argp * d) < T, "%.17g", s.omegao / (double)d); CHECK(rel(s.xmo, L.M * d) < T, "%.17g", s.xmo / (double)d);
  CHECK(rel(s.eo, L.ecc) < T, "%.17g", s.eo); CHECK(rel(s.xno, L.n * rev / 1440) < T, "%.17g rev/d", (double)(s.xno * 1440 / rev));
  CHECK(rel(s.xndt2o, L.ndot * rev / (1440.L * 1440)) < T, "%.17g rev/d2", (double)(s.xndt2o * 1440 * 1440 / rev));
  CHECK(rel(s.xndd6o, L.nddot * rev / (1440.L * 1440 * 1440)) < T, "%.17g rev/d3", (double)(s.xndd6o * 1440 * 1440 * 1440 / rev));
  CHECK(rel(s.bstar, L.bstar) < T, "%.17g", s.bstar);
}
static int parse(const str &a, const str &b, tle_t &s) {
  // in exactly sized, and dirty, storage
  memset(&s, 0x5a, sizeof s);
  char *p = strdup(a.c_str()), *q = strdup(b.c_str()); int r = parse_elements(p, q, &s); free(p); free(q);
  return r;
}
static void labels(const Lines &L) {
  label(L.norad < 100000 ? "plain number" : L.norad < 340000 ? "Alpha-5" : L.norad < 32412064 ? "xxxxL" : L.norad < 41845024 ? "xxxLd" : L.norad < 44619424 ? "xxLdd" : "xLddd");
  label_if(L.H, "state vector"); label(L.yr < 57 ? "2000-2056" : "1957-1999"); label_if(L.desig[0] == ' ', "no designator");
  if (!L.H) { label_if(L.ndot < 0, "negative ndot"); label_if(L.bstar < 0, "negative B*"); label_if(L.bstar == 0, "B* null"); label_if(L.nddot != 0, "nddot"); label_if(fabsl(L.bstar) >= 1, "B* with a positive exponent"); label_if(L.rev > 9999, "mean motion runs into the revolution number"); }
}
static void decode(const Toks &t) {
  Lines L = build(t); tle_t s;
  if (want_show()) show(L.a + "\n" + L.b);
  int r = parse(L.a + TAIL[t[33]], L.b + TAIL[t[34]], s);
  CHECK(r == 0, "parse_elements gives %d", r);
  eq(s, L); labels(L); nontrivial();
}
static Reg r_decode("decode", gen, decode);

static bool same(const tle_t &a, const tle_t &b, bool H) {
  bool r = a.epoch == b.epoch && a.norad_number == b.norad_number && a.bulletin_number == b.bulletin_number && a.revolution_number == b.revolution_number && a.classification == b.classification
    && a.ephemeris_type == b.ephemeris_type && !memcmp(a.intl_desig, b.intl_desig, 9) && !memcmp(&a.xincl, &b.xincl, 6 * sizeof(double));
  if (!H) r = r && a.xndt2o == b.xndt2o && a.xndd6o == b.xndd6o && a.bstar == b.bstar;
  return r;
}
// a wrong check digit, or a changed digit, in one line or both
static void digit(const Toks &t) {
  Lines L = build(t); str l[2] = {L.a, L.b};
  int which = (int)t[37], want = 0, pos[2] = {0, 0};
  for (int k = 0; k < 2; k++) {
    if (which != 2 && which != k) continue;
    // columns holding a digit; the check digit itself one time in four
    std::vector<int> at; for (int i = 2; i < 68; i++) if (isdigit((unsigned char)l[k][i])) at.push_back(i);
    int p = t[35] % 4 == 0 ? 68 : at[(t[35] * 7919 + t[38]) % at.size()];
    l[k][p] = (char)('0' + (l[k][p] - '0' + t[36]) % 10); pos[k] = p; want |= 1 << k;
  }
  if (want_show()) show(l[0] + "\n" + l[1]);
  tle_t s, f;
  int r = parse(l[0] + TAIL[t[33]], l[1] + TAIL[t[34]], s);
  CHECK(r == want, "parse_elements gives %d, changed columns %d and %d", r, pos[0], pos[1]);
  for (int k = 0; k < 2; k++) {
    int c = tle_checksum((l[k] + TAIL[t[33 + k]]).c_str());
    CHECK((c != 0) == (want >> k & 1) && c >= 0, "tle_checksum gives %d for line %d", c, k + 1);
  }
  // with right check digits: the same values
  for (int k = 0; k < 2; k++) l[k][68] = (char)('0' + own_sum(l[k]));
  int r2 = parse(l[0], l[1], f);
  CHECK(r2 == 0, "parse_elements gives %d with the checksums corrected", r2);
  CHECK(same(s, f, L.H), "the values depend on the checksum");
  if (pos[0] % 68 == 0 && pos[1] % 68 == 0) { eq(s, L); label("check digit changed"); } else label("digit of a field changed");
  label(want == 3 ? "both lines" : want == 1 ? "line 1" : "line 2"); label_if(L.H, "state vector"); nontrivial();
}
static Reg r_digit("digit", gen, digit);

// any byte anywhere, swapped, truncated, foreign lines
static void foreign(const Toks &t) {
  Lines L = build(t); str l[2] = {L.a, L.b}; int k = (int)(t[37] & 1), p = (int)t[35]; tle_t s;
  int mode = (int)(t[39] % 10); bool reject = false; int want = -1; const char *lab = "";
  if (mode < 4) {
    int c = (int)t[38]; lab = "one byte changed";
    l[k][p] = (char)c;
    if (p == 0) reject = c != '1' + k; else if (p == 1) reject = c != ' ';
    if (p < 68 && (c < 32 || c > 126)) reject = true;
    if (!reject && p < 68 && c <= 'z' && (!L.H || isalnum(c)) && !(p == 62 && k == 0)) { want = own_sum(l[k]) == l[k][68] - '0' ? 0 : 1 << k; }
    if (!reject && p == 68 && isdigit(c)) want = own_sum(l[k]) == c - '0' ? 0 : 1 << k;
    if (!reject && want < 0) { // (no verdict: braces, or a byte instead of the check digit)
      if (L.H && p >= 33 && p < 62 && (p - 33) % 10 < 9 && (((p - 33) % 10 == 0 && c != '+' && c != '-') || ((p - 33) % 10 && !(isdigit(c) || (c >= 'A' && c <= 'Z'))))) { reject = true; lab = "broken state vector"; }
    }
    if (want >= 0 && L.H && p >= 33 && p < 62) { int q = (p - 33) % 10; if ((q == 0 && isalnum(c)) || (q && q < 9 && c >= 'a' && c <= 'z')) { reject = true; want = -1; lab = "broken state vector"; } }
  } else if (mode == 4) { std::swap(l[0], l[1]); reject = true; lab = "lines swapped"; }
  else if (mode == 5) { l[k ^ 1] = l[k]; reject = true; lab = "one line twice"; }
  else if (mode == 6) { l[k] = l[k].substr(0, p < 68 ? p : 67); reject = true; lab = "truncated"; }
  else if (mode == 7) { l[k] += fmt("%c", (char)(33 + t[38] % 94)) + "x"; reject = true; lab = "line goes on"; }
  else if (mode == 8) { l[k] = str("ISS (ZARYA)             ") + (t[38] & 1 ? "" : l[k]); reject = true; lab = "a name"; }
  else { str x; int n = (int)(t[35] + t[38] % 30); uint64_t r = (uint64_t)t[38] * 2654435761u + (uint64_t)t[40]; for (int i = 0; i < n; i++) { r = r * 6364136223846793005ull + 1442695040888963407ull; x += (char)(32 + (r >> 33) % 95); } l[k] = x; reject = !(x.size() >= 2 && x[0] == '1' + k && x[1] == ' '); lab = "random text"; }
  if (want_show()) show(l[0] + "\n" + l[1]);
  int r = parse(l[0], l[1], s);
  if (reject) CHECK(r < 0, "%s: accepted with %d", lab, r);
  if (want >= 0) CHECK(r == want, "column %d of line %d: gives %d, the sums say %d", p + 1, k + 1, r, want);
  label(lab); label(reject ? "to be rejected" : want >= 0 ? "checksum verdict known" : "no verdict"); nontrivial(reject || want >= 0);
}
static Reg r_foreign("foreign", gen, foreign);
PBT_MAIN
