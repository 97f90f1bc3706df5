/* CBMC only: the C library functions whose numeric value the library takes on
 * trust.  Stage 1: uninterpreted functions constrained by facts every conforming
 * libm satisfies.  Stage 2: a table of true values on a small grid (arguments off
 * the grid are outside that query's domain).  Natively the real libm is used. */
#ifdef VP_CBMC
#include <stdint.h>
#include <stdlib.h>
#define VP_NO_MAIN
#include "vp.h"
double __CPROVER_uninterpreted_vp_exp(double);
double __CPROVER_uninterpreted_vp_tanh(double);
double __CPROVER_uninterpreted_vp_sqrt(double);
double __CPROVER_uninterpreted_vp_log(double);
double __CPROVER_uninterpreted_vp_pow(double, double);

#define NAN_ (0.0 / 0.0)
#define INF_ (1.0 / 0.0)
#if VP_STAGE == 2
#include "vp_tables.h"
#endif

double exp(double x) {
  if (x != x) return x;
#if VP_STAGE == 2
  for (int i = 0; i < VP_EXP_N; i++)
    if (x == vp_exp_x[i]) return vp_exp_y[i];
  __CPROVER_assume(0);
#endif
  if (x == 0) return 1.0;
  if (x == INF_) return INF_;
  if (x == -INF_) return 0.0;
  double y = __CPROVER_uninterpreted_vp_exp(x);
  __CPROVER_assume(y >= 0);
  __CPROVER_assume(x < 0 ? y <= 1.0 : y >= 1.0);
  __CPROVER_assume(x > 709.0 || y < 1e308);
  __CPROVER_assume(x < -700.0 || y > 1e-305);
  return y;
}
float expf(float x) { return (float)exp((double)x); }
double exp2(double x) { return exp(x * 0.693147180559945309417); }

double tanh(double x) {
  if (x != x) return x;
#if VP_STAGE == 2
  for (int i = 0; i < VP_EXP_N; i++)
    if (x == vp_exp_x[i]) return vp_tanh_y[i];
  __CPROVER_assume(0);
#endif
  if (x == 0) return x;
  if (x == INF_) return 1.0;
  if (x == -INF_) return -1.0;
  double y = x > 0 ? __CPROVER_uninterpreted_vp_tanh(x) : -__CPROVER_uninterpreted_vp_tanh(-x);
  __CPROVER_assume(x > 0 ? (y >= 0 && y <= 1.0) : (y <= 0 && y >= -1.0));
  return y;
}
float tanhf(float x) { return (float)tanh((double)x); }

double sqrt(double x) {
  if (x != x) return x;
  if (x < 0) return NAN_;
  if (x == 0) return x;
#if VP_STAGE == 2
  for (int i = 0; i < VP_SQRT_N; i++)
    if (x == vp_sqrt_x[i]) return vp_sqrt_y[i];
  __CPROVER_assume(0);
#endif
  if (x == 1) return x;
  if (x == INF_) return x;
  double y = __CPROVER_uninterpreted_vp_sqrt(x);
  __CPROVER_assume(y > 0);
  __CPROVER_assume(x > 1 ? (y >= 1 && y <= x) : (y <= 1 && y >= x));
  __CPROVER_assume(y < 1.4e154);
  return y;
}
float sqrtf(float x) { return (float)sqrt((double)x); }
double log(double x) { return __CPROVER_uninterpreted_vp_log(x); }
double pow(double x, double e) {
  if (e == 0.5) return sqrt(x);
  if (e == 1.0) return x;
  if (e == 2.0) return x * x;
  return __CPROVER_uninterpreted_vp_pow(x, e);
}
int vp_rand_raw(void);
/* rand(): any value of its documented range; the draws are part of the input */
extern int vp_rand_mode;
int rand(void) {
  uint64_t v = vp_u64();
  return (int)(v & 0x7fffffff);
}
void srand(unsigned s) { (void)s; }
#endif
