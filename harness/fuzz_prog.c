/* C14 (and, with -DJUDGE_JSON, C01): main() of one of the programs, (renamed to prog_main, see
   fuzz_main.c) run in-process on arguments and files made
   of the fuzzer's bytes.  Input: sections separated by
   0x1e; the first is the arguments, one per line, the others the contents of files whose names end in 1, 2... */
#define _GNU_SOURCE
#include <ctype.h>
#include <math.h>
#include <setjmp.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

static jmp_buf out_; static int rc_;
__attribute__((noreturn)) void prog_exit(int c) { rc_ = c; longjmp(out_, 1); }
static struct { const char *p; size_t n; } sec[8]; static int nsec;
static FILE *open_[64]; static int nopen;
static void *mem_[4096]; static int nmem;
FILE *prog_fopen(const char *name, const char *mode) {
  size_t l = strlen(name); FILE *f;
  if (!l || mode[0] != 'r' || nopen == 64) return NULL;
  int k = name[l - 1] - '0';
  if (k < 1 || k >= nsec) return NULL;
  f = sec[k].n ? fmemopen((void *)sec[k].p, sec[k].n, "r") : fopen("/dev/null", "r");
  if (f) open_[nopen++] = f;
  return f;
}
int prog_fclose(FILE *f) { for (int i = 0; i < nopen; i++) if (open_[i] == f) { open_[i] = open_[--nopen]; return fclose(f); } return fclose(f); }
static void keep(void *p) { if (p && nmem < 4096) mem_[nmem++] = p; }
static void drop(void *p) { for (int i = 0; i < nmem; i++) if (mem_[i] == p) { mem_[i] = mem_[--nmem]; return; } }
void *prog_malloc(size_t n) { void *p = malloc(n); keep(p); return p; }
void *prog_calloc(size_t n, size_t m) { void *p = calloc(n, m); keep(p); return p; }
void *prog_realloc(void *q, size_t n) { void *p = realloc(q, n); if (p) { drop(q); keep(p); } return p; }
void prog_free(void *p) { drop(p); free(p); }

int prog_main(int, char **);
int date2mjd_nf(const char *, double *);
extern unsigned char __start_progbss[] __attribute__((weak)), __stop_progbss[] __attribute__((weak)), __start_progdata[] __attribute__((weak)), __stop_progdata[] __attribute__((weak));
/* the program's own variables, as they are before main() */
static unsigned char *snap_[2];
__attribute__((no_sanitize("address", "undefined", "coverage"))) static void restore(void) {
  unsigned char *s[2] = {__start_progbss, __start_progdata}, *e[2] = {__stop_progbss, __stop_progdata};
  for (int k = 0; k < 2; k++) {
    if (!s[k]) continue;
    size_t n = (size_t)(e[k] - s[k]);
    int first = !snap_[k];
    if (first) snap_[k] = malloc(n + 1);
    for (size_t i = 0; i < n; i++) { if (first) ((volatile unsigned char *)snap_[k])[i] = s[k][i]; else ((volatile unsigned char *)s[k])[i] = snap_[k][i]; }
  }
}

/* ---- JSON ---- */
static const unsigned char *J, *JE;
static void ws_(void) { while (J < JE && (*J == ' ' || *J == '\n' || *J == '\t' || *J == '\r')) J++; }
static int str_(void) {
  if (J >= JE || *J++ != '"') return 0;
  while (J < JE && *J != '"') {
    if (*J < 32) return 0;
    if (*J == '\\') { J++; if (J >= JE) return 0; if (*J == 'u') { for (int i = 0; i < 4; i++) if (++J >= JE || !isxdigit(*J)) return 0; } else if (!strchr("\"\\/bfnrt", *J)) return 0; }
    J++;
  }
  return J < JE && *J++ == '"';
}
static int num_(void) {
  if (J < JE && *J == '-') J++;
  if (J >= JE || !isdigit(*J)) return 0;
  if (*J == '0') J++; else while (J < JE && isdigit(*J)) J++;
  if (J < JE && *J == '.') { J++; if (J >= JE || !isdigit(*J)) return 0; while (J < JE && isdigit(*J)) J++; }
  if (J < JE && (*J == 'e' || *J == 'E')) { J++; if (J < JE && (*J == '+' || *J == '-')) J++; if (J >= JE || !isdigit(*J)) return 0; while (J < JE && isdigit(*J)) J++; }
  return 1;
}
static int value_(int depth) {
  ws_();
  if (J >= JE || depth > 40) return 0;
  if (*J == '"') return str_();
  if (*J == '{' || *J == '[') {
    int obj = *J == '{'; unsigned char end = obj ? '}' : ']';
    J++; ws_();
    if (J < JE && *J == end) { J++; return 1; }
    for (;;) {
      ws_();
      if (obj) { if (!str_()) return 0; ws_(); if (J >= JE || *J++ != ':') return 0; }
      if (!value_(depth + 1)) return 0;
      ws_();
      if (J >= JE) return 0;
      if (*J == ',') { J++; continue; }
      return *J++ == end;
    }
  }
  if (JE - J >= 4 && (!memcmp(J, "true", 4) || !memcmp(J, "null", 4))) { J += 4; return 1; }
  if (JE - J >= 5 && !memcmp(J, "false", 5)) { J += 5; return 1; }
  return num_();
}

/* Runs that are only long, not endless, are left out: dates far from any epoch for several satellites, and
   visibility searches over many steps. */
static int too_long(int argc, char **argv, int vis) {
  double lo = 1e300, hi = -1e300; int n2 = 0, k;
  for (k = 1; k < nsec; k++)
    for (const char *s = sec[k].p; (s = memchr(s, '2', sec[k].p + sec[k].n - s)); s++) n2 += s[1] == ' ';
  for (k = 1; k < argc; k++) {
    char o = 0; const char *v = argv[k];
    if (v[0] == '-' && (v[1] == 'j' || v[1] == 'd')) { o = v[1]; v += 2; if (!*v && k + 1 < argc) v = argv[k + 1]; }
    if (!o) continue;
    char c[2048]; snprintf(c, sizeof c, "%s", v); char *b = strchr(c, ','); if (b) *b++ = 0;
    double m[2]; int got = 0;
    if (o == 'j') got = sscanf(v, "%lf,%lf", &m[0], &m[1]);
    else { got = date2mjd_nf(c, &m[0]) == 0; if (b && date2mjd_nf(b, &m[1]) == 0) { if (!got) return 1; got = 2; } }
    if (vis && got == 1) return 1;
    for (int i = 0; i < got; i++) { if (!(fabs(m[i]) < 1e9)) m[i] = 1e9; if (m[i] < lo) lo = m[i]; if (m[i] > hi) hi = m[i]; }
  }
  if (vis && hi > lo && (hi - lo > 0.002 || lo < 45000 || hi > 70000)) return 1;
  if (hi >= lo && (hi > 130000 || lo < 0) && n2 > 1) return 1;
  return 0;
}

static int memfd_ = -1;
int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
  static char buf[70000]; static unsigned char o[1 << 20];
  if (size > 65000) return -1;
  memcpy(buf, data, size); buf[size] = 0;
  if (memfd_ < 0) { memfd_ = memfd_create("out", 0); fflush(stdout); dup2(memfd_, 1); }
  restore();
  nsec = 0;
  char *p = buf;
  for (;;) { char *e = memchr(p, 0x1e, buf + size - p); if (!e) e = buf + size; sec[nsec].p = p; sec[nsec++].n = (size_t)(e - p); if (e == buf + size || nsec == 7) break; *e = 0; p = e + 1; }
  /* every other input gets right check digits, so that mutated element lines are used */
  if (size & 1)
    for (int k = 1; k < nsec; k++)
      for (char *l = (char *)sec[k].p, *end = l + sec[k].n; l < end;) {
        char *e = memchr(l, '\n', (size_t)(end - l)); if (!e) e = end;
        if (e - l >= 69 && (l[0] == '1' || l[0] == '2') && l[1] == ' ') { int c = 0; for (int i = 0; i < 68; i++) c += l[i] >= '0' && l[i] <= '9' ? l[i] - '0' : l[i] == '-'; l[68] = (char)('0' + c % 10); }
        l = e + 1;
      }
  /* arguments, each in its own allocation */
  char *argv[34]; int argc = 1; argv[0] = strdup(PROGNAME);
  if (sec[0].n) {
    const char *a = sec[0].p, *end = a + sec[0].n;
    while (argc < 32) { const char *e = memchr(a, '\n', (size_t)(end - a)); if (!e) e = end; char *x = strndup(a, (size_t)(e - a)); argv[argc++] = x; if (e == end) break; a = e + 1; }
  }
  argv[argc] = NULL;
  char *orig[34]; memcpy(orig, argv, sizeof orig);
  int ac = argc;
  if (!too_long(argc, argv, PROGNAME[4] == 'v')) {
    rc_ = -1000;
    if (!setjmp(out_)) rc_ = prog_main(argc, argv);
    rc_ &= 255;
    fflush(stdout);
    off_t n = lseek(memfd_, 0, SEEK_CUR);
#ifdef JUDGE_JSON
    if (n > 0 && n < (off_t)sizeof o) {
      n = pread(memfd_, o, (size_t)n, 0); o[n] = 0;
      if (o[0] == '{' || rc_) {
        J = o; JE = o + n;
        int ok = o[0] == '{' && value_(0); ws_();
        if (!ok || J != JE) { fprintf(stderr, "PROPERTY: exit code %d, standard output is not one JSON object (byte %ld): %s\n", rc_, (long)(J - o), o); abort(); }
        /* the exit status and the "status" member agree */
        char *s = NULL, *q = (char *)o; while ((q = strstr(q, "\"status\": "))) { s = q; q++; }
        if (s && (atoi(s + 10) == 0) != (rc_ == 0) && ac > 1) { fprintf(stderr, "PROPERTY: exit code %d with %s\n", rc_, s); abort(); }
      }
    } else if (n == 0) { fprintf(stderr, "PROPERTY: exit code %d, and no answer\n", rc_); abort(); }
#else
    (void)n; (void)o; (void)value_;
#endif
    lseek(memfd_, 0, SEEK_SET); if (ftruncate(memfd_, 0)) abort();
  }
  while (nopen) fclose(open_[--nopen]);
  while (nmem) free(mem_[--nmem]);
  for (int i = 0; i < ac; i++) free(orig[i]);
  return 0;
}
