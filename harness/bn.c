/* C15: batch normalisation.  Symbolic: input, scale, bias, mean.  The variances are
 * given per case (sqrt refuses negative values with an early return, which makes a
 * symbolic variance split every later pointer); their square roots are symbolic. */
#include "vp.h"
#include "shape.h"
#include <math.h>
#include "src/nn/batch_norm.h"
#ifndef VP_EPS
#define VP_EPS 1e-5
#endif
#if VP_STAGE == 2
#undef VP_EPS
#define VP_EPS 1
static const VP_T vp_var[] = {3, 0, 8};
#else
static const VP_T vp_var[] = VP_VAR;
#endif
void vp_harness(void) {
  int64_t c = vp_d[VP_AXIS];
  VP_T a[VP_N1], sc[VP_C], bi[VP_C], me[VP_C], va[VP_C];
  Tensor x = vp_tensor_of(VP_K, vp_d, VP_ND, a), o = NULL;
  Tensor ts = vp_tensor_of(VP_K, &c, 1, sc), tb = vp_tensor_of(VP_K, &c, 1, bi);
  Tensor tm = vp_tensor_of(VP_K, &c, 1, me), tv = NULL;
  VP_T *pv = vp_malloc(sizeof(VP_T) * VP_C);
  for (int i = 0; i < VP_C; i++) pv[i] = va[i] = vp_var[i];
  VP_ASSERT(aitisa_create(VP_K, vp_cpu, &c, 1, pv, sizeof(VP_T) * VP_C, &tv) == STATUS_SUCCESS, "creating a well-formed tensor succeeds");
  double eps = VP_EPS;
  Status s = aitisa_batch_norm(x, VP_AXIS, ts, tb, tm, tv, eps, &o);
  VP_ASSERT(s == STATUS_SUCCESS, "matching parameters are accepted");
  vp_check_shape(o, VP_K, vp_d, VP_ND);
  VP_T *z = aitisa_tensor_data(o);
  int64_t inner = 1;
  for (int i = VP_AXIS + 1; i < VP_ND; i++) inner *= vp_d[i];
  VP_T den[VP_C];
  for (int i = 0; i < VP_C; i++) { VP_T e = (VP_T)eps; VP_T t = va[i] + e; den[i] = (VP_T)sqrt(t); }
  for (int64_t i = 0; i < VP_N; i++) {
    int64_t k = (i / inner) % c;
    VP_T u = a[i] - me[k];
    VP_T v = u / den[k];
    VP_T w = sc[k] * v;
    VP_T r = w + bi[k];
    double scale = (vp_fabs((double)a[i]) + vp_fabs((double)me[k])) / den[k] * vp_fabs((double)sc[k]) + vp_fabs((double)bi[k]);
#if VP_STAGE == 2 && defined(VP_CBMC) && !defined(VP_SPLIT)
    scale = 1;
#endif
    VP_ASSERT(VP_NEAR(z[i], r, scale), "scale*(x-mean)/sqrt(var+eps)+bias of the element's own channel");
  }
  VP_REACHED();
}
