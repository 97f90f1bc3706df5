/* Common harness layer.  The same harness source is (a) executed symbolically by
 * CBMC together with /repo's real sources, and (b) compiled natively to replay a
 * solver counterexample against the real code (values come from $VP_REPLAY). */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>
#include <stdlib.h>
#include "src/core/tensor.h"
#include "src/core/allocator.h"

/* conversions in the harness itself may wrap; only those of the library are judged */
#ifdef VP_CBMC
#pragma CPROVER check push
#pragma CPROVER check disable "conversion"
#endif

#undef malloc
#undef free
#undef calloc
#undef realloc

/* ---------- symbolic input ---------- */
uint64_t vp_u64(void);                       /* any 64-bit value               */
int64_t vp_range(int64_t lo, int64_t hi);    /* any value in [lo,hi]           */

/* ---------- assumptions, assertions ---------- */
#ifdef VP_CBMC
#define VP_ASSUME(c) __CPROVER_assume(c)
#define VP_ASSERT(c, msg) __CPROVER_assert((c), "VP: " msg)
/* path condition: natively the run stops (the counterexample is infeasible) */
#else
void vp_native_assume(int c, const char *what);
void vp_native_fail(const char *msg);
#define VP_ASSUME(c) vp_native_assume(!!(c), #c)
#define VP_ASSERT(c, msg) do { if (!(c)) vp_native_fail(msg); } while (0)
#endif

/* ---------- allocation accounting (repo is compiled with -Dmalloc=vp_malloc ...) */
void *vp_malloc(size_t n);
void *vp_calloc(size_t n, size_t m);
void *vp_realloc(void *p, size_t n);
void vp_free(void *p);
extern long vp_live;      /* blocks handed out and not yet returned            */
extern long vp_nalloc;    /* allocation requests so far                        */
extern long vp_fail_at;   /* the request with this number fails (-1: none)     */
extern int vp_did_fail;
#ifndef VP_CBMC
extern int vp_fill_mix;   /* flipped between two calls: fresh memory differs */
#endif

/* ---------- element types ---------- */
#ifndef VP_T
#define VP_T float
#define VP_K kFloat
#define VP_FLT 1
#endif
#ifndef VP_FLT
#define VP_FLT 0
#endif
#ifndef VP_STAGE
#define VP_STAGE 1
#endif

/* raw bytes of one element, any value */
#ifdef VP_SPLIT
/* counterexample search by case split: the solver picks one of VP_SPLITS menus, the
 * elements are that menu's constants and everything else stays symbolic */
#ifndef VP_SPLITS
#define VP_SPLITS 12
#endif
extern int vp_split, vp_nth;
static inline VP_T vp_elem(void) {
  static const signed char small[] = {3, -5, 7, 2, -1, 6, -7, 5, 1, -4, 8, -2, 4, -8, 0, -3, -6};
#if VP_FLT
  static const double rich[] = {0.1, 1.0 / 3, 3e7, -0.7, 16777217, -3e7, 1e-3, 5.3, -123.456, 2.0 / 3, -1e-5, 987.125, 40000.1};
#else
  static const int64_t rich[] = {1, 300, -7, 100, 70000, -129, 5000000000, 12, -40000, 255, -2147483649, 9, 32768};
#endif
  int n = vp_nth++;
  return vp_split < 8 ? (VP_T)small[(n * (vp_split % 4 + 1) + vp_split * 5) % 17]
                      : (VP_T)rich[(n * (vp_split % 4 + 1) + vp_split * 3) % 13];
}
#else
static inline VP_T vp_elem(void) {
#if VP_FLT
  union { VP_T f; uint64_t u; uint32_t w; } x;
  x.u = 0;
  x.u = vp_u64();
#if VP_STAGE == 2
  return (VP_T)((int64_t)(x.u % 17) - 8);   /* small exactly-representable values */
#else
  return x.f;
#endif
#else
  return (VP_T)vp_u64();
#endif
}
#endif

static const Device vp_cpu = {DEVICE_CPU, 0};

/* total number of elements */
static inline int64_t vp_prod(const int64_t *d, int64_t n) {
  int64_t r = 1;
  for (int64_t i = 0; i < n; i++) r *= d[i];
  return r;
}

/* A tensor of element type VP_T whose n elements were just drawn from vp_elem()
 * and are also written to copy[] when copy is given. */
static inline Tensor vp_tensor_of(DataType k, const int64_t *dims, int64_t ndim, VP_T *copy) {
  int64_t n = vp_prod(dims, ndim);
  VP_T *p = vp_malloc(sizeof(VP_T) * n);
  for (int64_t i = 0; i < n; i++) {
    p[i] = vp_elem();
    if (copy) copy[i] = p[i];
  }
  Tensor t = NULL;
  Status s = aitisa_create(k, vp_cpu, (int64_t *)dims, ndim, p, (unsigned)(sizeof(VP_T) * n), &t);
  VP_ASSERT(s == STATUS_SUCCESS, "creating a well-formed tensor succeeds");
  return t;
}

/* ---------- comparisons ---------- */
/* bit-for-bit value equality; NaN equals NaN, +0 equals -0 */
#if VP_FLT
#define VP_SAME(a, b) ((a) == (b) || ((a) != (a) && (b) != (b)))
#else
#define VP_SAME(a, b) ((a) == (b))
#endif
double vp_fabs(double x);
#if !VP_FLT
#define VP_NEAR(got, ref, scale) ((got) == (ref))
#elif defined(VP_CBMC) && VP_STAGE == 1
#define VP_NEAR(got, ref, scale) VP_SAME(got, ref)
#else
#define VP_NEAR(got, ref, scale) vp_close((double)(got), (double)(ref), (double)(scale))
#endif
/* Sums of products: exact in stage 1 (symbolic, same association as the
 * reference), within rounding of `scale` (the sum of the absolute values of the
 * terms) natively and in stage 2. */
static inline int vp_close(double got, double ref, double scale) {
#if defined(VP_CBMC) && VP_STAGE == 1
  return got == ref || (got != got && ref != ref);
#else
  if (got == ref) return 1;
#if VP_FLT
  double big = sizeof(VP_T) == 4 ? 1e37 : 1e307;
  double tol = sizeof(VP_T) == 4 ? 1e-4 : 1e-9;
#else
  double big = 1e307, tol = 0;
#endif
  if (!(scale < big)) return 1;              /* overflow territory: rounding order matters */
  if (got != got && ref != ref) return 1;
  return vp_fabs(got - ref) <= tol * (scale < 1e-30 ? 1e-30 : scale);
#endif
}

/* reachability witness: under -DVP_WITNESS this must come back violated */
#ifdef VP_WITNESS
#define VP_REACHED() __CPROVER_assert(0, "VPWITNESS")
#else
#define VP_REACHED() ((void)0)
#endif

/* output tensor shape must be exactly dims/ndim/dtype/cpu */
static inline void vp_check_shape(Tensor o, DataType k, const int64_t *dims, int64_t ndim) {
  VP_ASSERT(o != NULL, "output tensor is produced");
  VP_ASSERT(aitisa_tensor_ndim(o) == ndim, "output rank");
  for (int64_t i = 0; i < ndim; i++)
    VP_ASSERT(aitisa_tensor_dim(o, i) == dims[i], "output dimension");
  VP_ASSERT(aitisa_tensor_size(o) == vp_prod(dims, ndim), "output element count");
  VP_ASSERT(aitisa_tensor_data_type(o).code == k.code, "output data type");
  VP_ASSERT(aitisa_tensor_data_type(o).size == k.size, "output element size");
  VP_ASSERT(aitisa_tensor_device(o).type == DEVICE_CPU, "output device");
}

void vp_harness(void);
#ifndef VP_NO_MAIN                           /* the harness file itself */
#ifdef VP_SPLIT
int vp_splits(void) { return VP_SPLITS; }
#else
int vp_splits(void) { return 0; }
#endif
#endif
#ifdef VP_WARM
#include "warm.h"
#endif
#endif
