/* C22: slice.  Symbolic: every element and every begin offset.  Concrete: shape, size, step. */
#include "vp.h"
#include "shape.h"
#include "src/basic/slice.h"
void vp_harness(void) {
  static const int sz[] = VP_SZ, sp[] = VP_SP;
  {
    VP_T a[VP_N1];
    Tensor x = vp_tensor_of(VP_K, vp_d, VP_ND, a), o = NULL;
    int begin[8], size[8], step[8];
    int64_t od[8], cnt[8], ond = 0, total = 1;
    for (int i = 0; i < VP_ND; i++) {
      size[i] = sz[i];
      step[i] = sp[i];
      int64_t hi = vp_d[i] - (size[i] ? size[i] : 1);
      begin[i] = (int)vp_range(0, hi);
      int64_t n = (size[i] + step[i] - 1) / step[i];
      cnt[i] = n ? n : 1;           /* size 0 selects the one index `begin` and drops the axis */
      if (n) od[ond++] = n;
      total *= cnt[i];
    }
    Status s = aitisa_slice(x, begin, size, step, &o);
    VP_ASSERT(s == STATUS_SUCCESS, "in-range slice is accepted");
    vp_check_shape(o, VP_K, od, ond);
    VP_T *z = aitisa_tensor_data(o);
    for (int64_t k = 0; k < total; k++) {
      int64_t rem = k, off = 0, mul = 1;
      for (int i = VP_ND - 1; i >= 0; i--) {
        int64_t c = rem % cnt[i];
        rem /= cnt[i];
        off += (begin[i] + c * step[i]) * mul;
        mul *= vp_d[i];
      }
      VP_ASSERT(VP_SAME(z[k], a[off]), "element k of the slice is input[begin + k*step]");
    }
  }
  VP_REACHED();
}
