/* Specification language of the contracts in /verif/spec.
 * The same text is read twice: by the VC generator (VSPEC_SYM, all inputs, all sizes) and
 * compiled natively against the real code (replay of counterexamples, bounded cross-check). */
#ifndef VSPEC_H
#define VSPEC_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>

double __v_nd(const char *kind, const char *mode, const char *name, int nidx, int i, int j, double lo, double hi);
double __v_in(const char *kind, const char *name, int nidx, int i, int j);
double *__v_ndarr_R(const char *mode, const char *name, int n, double lo, double hi);
int    *__v_ndarr_I(const char *mode, const char *name, int n, int lo, int hi);
char   *__v_ndarr_C(const char *mode, const char *name, int n, int lo, int hi);
double *__v_arr_R(const char *name, int n);
int    *__v_arr_I(const char *name, int n);
char   *__v_arr_C(const char *name, int n);
double **__v_arr2_R(const char *mode, const char *name, int P, int n, double lo, double hi);
void    __v_opt(const char *name, int v);
void    __v_hint(double v);
void    __v_verifies(const char *name);

/* nondeterministic inputs. *_N: unconstrained in the proof (range used only natively)
 *   _P: > lo   _G: >= lo   _R: in [lo,hi] both in the proof and natively */
#define ND_D(name, lo, hi)        __v_nd("R", "n", name, 0, 0, 0, lo, hi)
#define ND_DP(name, lo, hi)       __v_nd("R", "p", name, 0, 0, 0, lo, hi)
#define ND_DG(name, lo, hi)       __v_nd("R", "g", name, 0, 0, 0, lo, hi)
#define ND_DR(name, lo, hi)       __v_nd("R", "r", name, 0, 0, 0, lo, hi)
#define ND_D1(name, i, lo, hi)    __v_nd("R", "n", name, 1, i, 0, lo, hi)
#define ND_DR1(name, i, lo, hi)   __v_nd("R", "r", name, 1, i, 0, lo, hi)
#define ND_DP1(name, i, lo, hi)   __v_nd("R", "p", name, 1, i, 0, lo, hi)
#define ND_D2(name, i, j, lo, hi) __v_nd("R", "n", name, 2, i, j, lo, hi)
#define ND_I(name, lo, hi)        ((int)__v_nd("I", "g", name, 0, 0, 0, lo, hi))
#define ND_IN(name, lo, hi)       ((int)__v_nd("I", "n", name, 0, 0, 0, lo, hi))
#define ND_IR(name, lo, hi)       ((int)__v_nd("I", "r", name, 0, 0, 0, lo, hi))
#define ND_IR1(name, i, lo, hi)   ((int)__v_nd("I", "r", name, 1, i, 0, lo, hi))
#define IN_D(name, i)             __v_in("R", name, 1, i, 0)
#define IN_D2(name, i, j)         __v_in("R", name, 2, i, j)
#define IN_I(name, i)             ((int)__v_in("I", name, 1, i, 0))
#define IN_S(name)                __v_in("R", name, 0, 0, 0)
#define IN_SI(name)               ((int)__v_in("I", name, 0, 0, 0))
/* input arrays with nondeterministic contents, output arrays without */
#define NDARR(name, n, lo, hi)    __v_ndarr_R("n", name, n, lo, hi)
#define NDARR_R(name, n, lo, hi)  __v_ndarr_R("r", name, n, lo, hi)
#define NDARR_P(name, n, lo, hi)  __v_ndarr_R("p", name, n, lo, hi)
#define NDARR_G(name, n, lo, hi)  __v_ndarr_R("g", name, n, lo, hi)
#define NDARR_I(name, n, lo, hi)  __v_ndarr_I("r", name, n, lo, hi)
#define NDARR_C(name, n, lo, hi)  __v_ndarr_C("r", name, n, lo, hi)
#define ARR_D(name, n)            __v_arr_R(name, n)
#define ARR_I(name, n)            __v_arr_I(name, n)
#define ARR_C(name, n)            __v_arr_C(name, n)
#define NDARR2(name, P, n, lo, hi)   __v_arr2_R("n", name, P, n, lo, hi)
#define NDARR2_R(name, P, n, lo, hi) __v_arr2_R("r", name, P, n, lo, hi)
#define OPTION(name, v)           __v_opt(name, v)
#define HINT(v)                   __v_hint(v)
#define VERIFIES(f)               __v_verifies(#f)

#ifdef VSPEC_SYM
int  __v_forall(int lo, int hi);
void __v_assume(int c);
void __v_check(const char *name, int c);
#define FORALL(k, lo, hi) for (int k = __v_forall(lo, hi), k##_once = 1; k##_once; k##_once = 0)
#define ASSUME(c)         __v_assume(c)
#define CHECK(name, c)    __v_check(name, c)
#define EQ(a, b)          ((a) == (b))
#define EQS(a, b, s)      ((a) == (b))
#define LE(a, b)          ((a) <= (b))
#define LT(a, b)          ((a) < (b))
#define NATIVE(x)
#else
void v_reject(void);
void v_fail(const char *name, const char *expr, int line);
int  v_eq(double a, double b);
int  v_eqs(double a, double b, double s);
int  v_le(double a, double b);
#define FORALL(k, lo, hi) for (int k = (lo); k < (hi); k++)
#define ASSUME(c)         do { if (!(c)) v_reject(); } while (0)
#define CHECK(name, c)    do { v_count++; if (!(c)) v_fail(name, #c, __LINE__); } while (0)
#define EQ(a, b)          v_eq(a, b)
#define EQS(a, b, s)      v_eqs(a, b, s)
#define LE(a, b)          v_le(a, b)
#define LT(a, b)          v_le(a, b)
#define NATIVE(x)         x
extern long v_count;
#endif
#include "mdoodz-private.h"
#ifdef VSPEC_SYM
#define NEW_GRID(m)      grid m
#define NEW_PARAMS(m)    params m
#define NEW_MARKERS(m)   markers m
#define NEW_SURFACE(m)   surface m
#define NEW_SPARSE(m)    SparseMat m
#define NEW_MATPROP(m)   mat_prop m
#define NEW_SCALE(m)     scale m
#else
#include "autofill.h"
#define VN 2048
#define NEW_GRID(m)      grid m;      memset(&m, 0, sizeof m); autofill_grid(&m, VN)
#define NEW_PARAMS(m)    params m;    memset(&m, 0, sizeof m); autofill_params(&m, VN)
#define NEW_MARKERS(m)   markers m;   memset(&m, 0, sizeof m); autofill_markers(&m, VN)
#define NEW_SURFACE(m)   surface m;   memset(&m, 0, sizeof m); autofill_surface(&m, VN)
#define NEW_SPARSE(m)    SparseMat m; memset(&m, 0, sizeof m); autofill_SparseMat(&m, VN)
#define NEW_MATPROP(m)   mat_prop m;  memset(&m, 0, sizeof m)
#define NEW_SCALE(m)     scale m;     memset(&m, 0, sizeof m)
#endif
#define IMPLIES(a, b) (!(a) || (b))
#endif
