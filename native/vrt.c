/* native runtime of the specification language: random / overridden inputs, failure reporting */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <math.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <time.h>
#include <unistd.h>
#include <dlfcn.h>
#undef exit
#undef printf

long v_count = 0;
static uint64_t seed = 1;
static jmp_buf jb;
static int noexit = 1;
static FILE *out;
static const char *hname = "?";
typedef struct { char name[96]; char kind, mode; double lo, hi; } decl;
static decl decls[1024]; static int ndecl;
typedef struct { char name[96]; int n, i, j; double v; } ovr;
static ovr *ovrs; static int novr;
static void *allocs[8192]; static int nallocs;
static int tracing = 0;

static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
static uint64_t hashs(const char *s) { uint64_t h = 1469598103934665603ULL; while (*s) { h ^= (unsigned char)*s++; h *= 1099511628211ULL; } return h; }

static decl *find(const char *name) { for (int i = 0; i < ndecl; i++) if (!strcmp(decls[i].name, name)) return &decls[i]; return NULL; }

static double value(decl *d, int n, int i, int j) {
  for (int k = 0; k < novr; k++)
    if (!strcmp(ovrs[k].name, d->name) && ovrs[k].n == n && (n < 1 || ovrs[k].i == i) && (n < 2 || ovrs[k].j == j)) return ovrs[k].v;
  uint64_t h = mix(seed * 0x9E3779B97F4A7C15ULL + hashs(d->name));
  uint64_t prof = h & 7;                       /* per array/scalar profile */
  if (n >= 1) h = mix(h + 0x1234567ULL * (uint64_t)(i + 7) + 0xABCDEF1ULL * (uint64_t)(n >= 2 ? j + 3 : 0));
  double u = (double)(mix(h) >> 11) / 9007199254740992.0;
  if (d->kind == 'I') {
    double lo = d->lo, hi = d->hi;
    double r = floor(lo + u * (hi - lo + 1));
    if (r > hi) r = hi;
    if (n == 0 && prof == 0) r = lo;
    return r;
  }
  double lo = d->lo, hi = d->hi;
  double r = lo + u * (hi - lo);
  if (n >= 1) {
    uint64_t s = mix(h ^ 0x55) % 12;
    if (prof == 1) { double c = (double)(mix(seed + hashs(d->name)) >> 11) / 9007199254740992.0; r = lo + c * (hi - lo); } /* constant field */
    else if (prof == 2 && s < 3) r = lo;
    else if (prof == 2 && s < 6) r = hi;
    else if (prof == 3 && lo <= 0 && hi >= 0 && s < 6) r = 0;
    else if (prof == 4) { double t = floor(lo + u * (hi - lo)); if (t >= lo && t <= hi) r = t; }
  } else {
    if (prof == 0) r = lo;
    if (prof == 1) r = hi;
    if (prof == 2 && lo <= 0 && hi >= 0) r = 0;
    if (prof == 3) { double t = floor(r); if (t >= lo && t <= hi) r = t; }
  }
  if (d->mode == 'p' && r <= lo) r = lo + 1e-3 * (hi - lo);
  return r;
}

static decl *declare(char kind, const char *mode, const char *name, double lo, double hi) {
  decl *d = find(name);
  if (!d) { if (ndecl >= 1024) abort(); d = &decls[ndecl++]; snprintf(d->name, sizeof d->name, "%s", name); }
  d->kind = kind; d->mode = mode[0]; d->lo = lo; d->hi = hi;
  return d;
}
double __v_nd(const char *kind, const char *mode, const char *name, int n, int i, int j, double lo, double hi) {
  decl *d = declare(kind[0], mode, name, lo, hi);
  double v = value(d, n, i, j);
  if (tracing) fprintf(out, "INPUT %s %d %d %d %.17g\n", name, n, i, j, v);
  return v;
}
double __v_in(const char *kind, const char *name, int n, int i, int j) {
  decl *d = find(name);
  if (!d) { fprintf(stderr, "undeclared input %s\n", name); abort(); }
  return value(d, n, i, j);
}
static void *al(size_t n) { void *p = malloc(n ? n : 1); if (nallocs < 8192) allocs[nallocs++] = p; return p; }
void *v_calloc(size_t n, size_t s) { void *p = al(n * s); memset(p, 0, n * s); return p; }
double *__v_ndarr_R(const char *mode, const char *name, int n, double lo, double hi) {
  decl *d = declare('R', mode, name, lo, hi); double *a = al(sizeof(double) * n);
  for (int i = 0; i < n; i++) a[i] = value(d, 1, i, 0);
  if (tracing) { fprintf(out, "INPUT-ARRAY %s %d:", name, n); for (int i = 0; i < n && i < 64; i++) fprintf(out, " %.17g", a[i]); fprintf(out, "\n"); }
  return a;
}
int *__v_ndarr_I(const char *mode, const char *name, int n, int lo, int hi) {
  decl *d = declare('I', mode, name, lo, hi); int *a = al(sizeof(int) * n);
  for (int i = 0; i < n; i++) a[i] = (int)value(d, 1, i, 0);
  return a;
}
char *__v_ndarr_C(const char *mode, const char *name, int n, int lo, int hi) {
  decl *d = declare('I', mode, name, lo, hi); char *a = al(n);
  for (int i = 0; i < n; i++) a[i] = (char)value(d, 1, i, 0);
  return a;
}
double *__v_arr_R(const char *name, int n) { double *a = al(sizeof(double) * n); for (int i = 0; i < n; i++) a[i] = 7.77e77; return a; }
int *__v_arr_I(const char *name, int n) { int *a = al(sizeof(int) * n); for (int i = 0; i < n; i++) a[i] = 0x5a5a5a5a; return a; }
char *__v_arr_C(const char *name, int n) { char *a = al(n); memset(a, 0x5a, n); return a; }
double **__v_arr2_R(const char *mode, const char *name, int P, int n, double lo, double hi) {
  decl *d = declare('R', mode, name, lo, hi); double **r = al(sizeof(double *) * P);
  for (int p = 0; p < P; p++) { r[p] = al(sizeof(double) * n); for (int i = 0; i < n; i++) r[p][i] = value(d, 2, p, i); }
  return r;
}
void __v_opt(const char *name, int v) { if (!strcmp(name, "noexit")) noexit = v; }
void __v_hint(double v) { (void)v; }
void __v_verifies(const char *n) { (void)n; }

int v_eqs(double a, double b, double s) {
  if (a == b) return 1;
  if (isnan(a) && isnan(b)) return 0;
  double t = 1e-7 * (fabs(s) + fabs(a) * 1e-2 + fabs(b) * 1e-2) + 1e-290;
  return fabs(a - b) <= t;
}
int v_eq(double a, double b) { if (a == b) return 1; return fabs(a - b) <= 1e-7 * (fabs(a) + fabs(b)) + 1e-12; }
int v_le(double a, double b) { return a <= b + 1e-7 * (fabs(a) + fabs(b)) + 1e-12; }

void v_reject(void) { longjmp(jb, 1); }
static char failname[256], failexpr[1024]; static int failline;
void v_fail(const char *name, const char *expr, int line) {
  snprintf(failname, sizeof failname, "%s", name); snprintf(failexpr, sizeof failexpr, "%s", expr); failline = line;
  longjmp(jb, 2);
}
void v_exit(int code) { (void)code; longjmp(jb, 3); }
int v_printf(const char *f, ...) { (void)f; return 0; }

typedef void (*hfn)(void);
const char *__asan_default_options(void) { return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_odr_violation=0"; }

/* usage: prog HARNESS SEED0 NTRIALS SECONDS RESULTFILE [OVERRIDES [trace]] */
int main(int argc, char **argv) {
  hname = argv[1]; uint64_t s0 = strtoull(argv[2], 0, 10); long n = atol(argv[3]); double secs = atof(argv[4]);
  out = fopen(argv[5], "w"); setvbuf(out, NULL, _IOLBF, 0);
  if (argc > 6 && strcmp(argv[6], "-")) {
    FILE *f = fopen(argv[6], "r"); char nm[96]; int k, i, j; double v; ovrs = malloc(sizeof(ovr) * 100000);
    while (f && fscanf(f, "%95s %d %d %d %lf", nm, &k, &i, &j, &v) == 5 && novr < 100000) { ovr *o = &ovrs[novr++]; snprintf(o->name, sizeof o->name, "%s", nm); o->n = k; o->i = i; o->j = j; o->v = v; }
    if (f) fclose(f);
  }
  if (argc > 7) tracing = 1;
  hfn h = (hfn)dlsym(RTLD_DEFAULT, hname);
  if (!h) { fprintf(out, "NOHARNESS %s\n", hname); return 3; }
  struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
  volatile long ok = 0, rej = 0, ex = 0, k;
  for (k = 0; k < n; k++) {
    seed = s0 + k; ndecl = 0; noexit = 1;
    for (int i = 0; i < nallocs; i++) free(allocs[i]);
    nallocs = 0;
    fseek(out, 0, SEEK_CUR); fprintf(out, "TRIAL %llu\n", (unsigned long long)seed);
    int r = setjmp(jb);
    if (r == 0) { h(); ok++; }
    else if (r == 1) rej++;
    else if (r == 2) { fprintf(out, "FAIL %s seed=%llu check=%s line=%d expr=%s\n", hname, (unsigned long long)seed, failname, failline, failexpr); fflush(out); _exit(1); }
    else if (r == 3) { if (noexit) { fprintf(out, "FAIL %s seed=%llu check=no-abort line=0 expr=the code called exit()\n", hname, (unsigned long long)seed); fflush(out); _exit(1); } ex++; }
    clock_gettime(CLOCK_MONOTONIC, &t1);
    if ((t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec) > secs) { k++; break; }
  }
  fprintf(out, "DONE trials=%ld ok=%ld rejected=%ld exits=%ld checks=%ld\n", (long)k, (long)ok, (long)rej, (long)ex, v_count);
  fclose(out);
  _exit(0);
}
