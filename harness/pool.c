/* C17: max / average pooling over the zero-padded input.  Symbolic: every element. */
#include "vp.h"
#include "shape.h"
#include "src/nn/pooling.h"
void vp_harness(void) {
  const int ks[] = VP_KS, st[] = VP_ST, pa[] = VP_PA, dl[] = VP_DL;
  VP_T a[VP_N1];
  Tensor x = vp_tensor_of(VP_K, vp_d, VP_ND, a), o = NULL;
  for (int i = 0; i < VP_N; i++) {
    VP_ASSUME(a[i] == a[i]);
#if !VP_FLT
    VP_ASSUME((double)a[i] <= 1e15 && (double)a[i] >= -1e15);
#endif
  }
  Status s = aitisa_pooling(x, VP_MODE, ks, st, pa, dl, &o);
  VP_ASSERT(s == STATUS_SUCCESS, "window that fits is accepted");
  int64_t od[8], osp = 1, isp = 1, win = 1;
  od[0] = vp_d[0];
  od[1] = vp_d[1];
  for (int d = 2; d < VP_ND; d++) {
    od[d] = (vp_d[d] + 2 * pa[d - 2] - (dl[d - 2] * (ks[d - 2] - 1) + 1)) / st[d - 2] + 1;
    osp *= od[d];
    isp *= vp_d[d];
    win *= ks[d - 2];
  }
  vp_check_shape(o, VP_K, od, VP_ND);
  VP_T *z = aitisa_tensor_data(o);
  for (int64_t c = 0; c < vp_d[0] * vp_d[1]; c++)
    for (int64_t p = 0; p < osp; p++) {
      VP_T best = 0;
      int any = 0, pad = 0;
      double sum = 0, scale = 0;
      for (int64_t q = 0; q < win; q++) {
        int64_t pp = p, qq = q, off = 0, mul = 1;
        int in = 1;
        for (int d = VP_ND - 1; d >= 2; d--) {
          int64_t pos = (pp % od[d]) * st[d - 2] - pa[d - 2] + (qq % ks[d - 2]) * dl[d - 2];
          pp /= od[d];
          qq /= ks[d - 2];
          if (pos < 0 || pos >= vp_d[d]) in = 0;
          off += pos * mul;
          mul *= vp_d[d];
        }
        if (in) {
          VP_T v = a[c * isp + off];
          sum += v;
#if !defined(VP_CBMC) || VP_STAGE == 2
          scale += vp_fabs((double)v);
#endif
          if (!any || v > best) best = v;
          any = 1;
        } else
          pad = 1;
      }
      if (pad && !(best > 0)) best = 0;
      VP_T g = z[c * osp + p];
#if VP_MAX
      VP_ASSERT(g == best, "largest value of the zero-padded window");
#else
      VP_T r = (VP_T)(sum / win);
      VP_ASSERT(VP_NEAR(g, r, scale), "mean of the zero-padded window");
#endif
    }
  VP_REACHED();
}
