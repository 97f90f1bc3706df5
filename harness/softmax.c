/* C14: softmax.  Symbolic: every element.  Concrete: shape, axis. */
#include "vp.h"
#include "shape.h"
#include <math.h>
#include "src/nn/softmax.h"
#ifndef VP_LIM
#define VP_LIM 1e30
#endif
void vp_harness(void) {
  VP_T a[VP_N1];
  Tensor x = vp_tensor_of(VP_K, vp_d, VP_ND, a), o = NULL;
  for (int i = 0; i < VP_N; i++) VP_ASSUME(a[i] >= (VP_T)-VP_LIM && a[i] <= (VP_T)VP_LIM);  /* finite */
  Status s = aitisa_softmax(x, VP_AXIS, &o);
  VP_ASSERT(s == STATUS_SUCCESS, "valid axis is accepted");
  vp_check_shape(o, VP_K, vp_d, VP_ND);
  VP_T *z = aitisa_tensor_data(o);
  /* groups: everything (axis -1), or every line along the axis */
  int64_t len = VP_AXIS < 0 ? VP_N : vp_d[VP_AXIS < 0 ? 0 : VP_AXIS], inner = 1, outer = 1;
  for (int i = 0; i < VP_ND; i++) {
    if (VP_AXIS >= 0 && i < VP_AXIS) outer *= vp_d[i];
    if (VP_AXIS >= 0 && i > VP_AXIS) inner *= vp_d[i];
  }
  for (int64_t p = 0; p < outer; p++)
    for (int64_t q = 0; q < inner; q++) {
      int64_t base = p * len * inner + q;
      VP_T m = a[base], e[VP_N1];
      for (int64_t i = 1; i < len; i++) if (a[base + i * inner] > m) m = a[base + i * inner];
      double total = 0;
      for (int64_t i = 0; i < len; i++) {
        e[i] = (VP_T)exp((double)a[base + i * inner] - m);
        total += e[i];
      }
#ifndef VP_CBMC
      double sum = 0;
      for (int64_t i = 0; i < len; i++) sum += z[base + i * inner];
      VP_ASSERT(vp_fabs(sum - 1.0) < 1e-3, "a group sums to one");
#endif
      for (int64_t i = 0; i < len; i++) {
        VP_T g = z[base + i * inner], r = (VP_T)(e[i] / total);
        VP_ASSERT(VP_NEAR(g, r, 1), "exp(x)/sum(exp) over the element's own group, finite for every finite input");
      }
    }
  VP_REACHED();
}
