/* C18: dropout.  Symbolic: every element, the rate, every random draw. */
#include "vp.h"
#include "shape.h"
#include "src/nn/dropout.h"
static double rate_of(void) {
  union { double f; uint64_t u; } r;
  r.u = vp_u64();
  return r.f;
}
void vp_harness(void) {
  VP_T a[VP_N1];
  Tensor x = vp_tensor_of(VP_K, vp_d, VP_ND, a), o = NULL;
#if VP_CASE == 0       /* any rate in [0,1] */
  double rate = rate_of();
  VP_ASSUME(rate >= 0 && rate <= 1);
  Status s = aitisa_dropout(x, rate, &o);
  VP_ASSERT(s == STATUS_SUCCESS, "rate in [0,1] accepted");
  vp_check_shape(o, VP_K, vp_d, VP_ND);
  VP_T *z = aitisa_tensor_data(o), *in = aitisa_tensor_data(x);
  for (int i = 0; i < VP_N; i++) {
    VP_ASSERT(z[i] == 0 || VP_SAME(z[i], a[i]), "each element is kept unchanged or zeroed");
    VP_ASSERT(VP_SAME(in[i], a[i]), "the input is untouched");
    if (rate == 0) VP_ASSERT(VP_SAME(z[i], a[i]), "rate 0 drops nothing");
    if (rate == 1) VP_ASSERT(z[i] == 0, "rate 1 drops everything");
  }
#elif VP_CASE == 1     /* any rate outside [0,1], including NaN */
  double rate = rate_of();
  VP_ASSUME(!(rate >= 0 && rate <= 1));
  Status s = aitisa_dropout(x, rate, &o);
  VP_ASSERT(s == STATUS_INVALID_ARGUMENT, "rate outside [0,1] is rejected");
#elif VP_CASE == 2 || VP_CASE == 3     /* reachability: with rate VP_RATE element VP_I can be kept (2) / dropped (3) */
  for (int i = 0; i < VP_N; i++) VP_ASSUME(a[i] == 1);
  Status s = aitisa_dropout(x, VP_RATE, &o);
  VP_ASSUME(s == STATUS_SUCCESS);
  VP_T *z = aitisa_tensor_data(o);
#ifndef VP_CBMC
  if (VP_CASE == 2 ? z[VP_I] == 1 : z[VP_I] == 0) return;
#endif
  VP_ASSERT(VP_CASE == 2 ? z[VP_I] != 1 : z[VP_I] != 0, "reach");
#endif
  VP_REACHED();
}
