/* C16: convolution (float).  Symbolic: every input and filter element.
 * Concrete: shapes, stride, padding, dilation, groups. */
#include "vp.h"
#include "src/nn/conv.h"
#define P1(x) ((x) ? (x) : 1)
#ifndef VP_GROUPS
#define VP_GROUPS 1
#endif
#ifndef VP_API
#define VP_API 0
#endif
static const int64_t di[] = VP_DI, df[] = VP_DF;
void vp_harness(void) {
  const int st[] = VP_ST, pa[] = VP_PA, dl[] = VP_DL;
  VP_T a[P1(VP_SI)], f[P1(VP_SF)];
  Tensor x = vp_tensor_of(VP_K, di, VP_ND, a), y = vp_tensor_of(VP_K, df, VP_ND, f), o = NULL;
#if VP_API == 2
  Status s = aitisa_conv2d(x, y, st, 2, pa, 2, dl, 2, VP_GROUPS, &o);
#elif VP_API == 3
  Status s = aitisa_conv3d(x, y, st, 3, pa, 3, dl, 3, VP_GROUPS, &o);
#else
  Status s = aitisa_conv(x, y, st, pa, dl, VP_GROUPS, &o);
#endif
  VP_ASSERT(s == STATUS_SUCCESS, "well-formed convolution is accepted");
  int64_t od[8];
  od[0] = di[0];
  od[1] = df[0];
  int64_t osp = 1, fsp = 1, isp = 1;
  for (int d = 2; d < VP_ND; d++) {
    od[d] = (di[d] + 2 * pa[d - 2] - (dl[d - 2] * (df[d] - 1) + 1)) / st[d - 2] + 1;
    osp *= od[d];
    fsp *= df[d];
    isp *= di[d];
  }
  vp_check_shape(o, VP_K, od, VP_ND);
  VP_T *z = aitisa_tensor_data(o);
  int64_t gi = df[1], go = df[0] / VP_GROUPS;   /* channels per group */
  for (int64_t b = 0; b < di[0]; b++)
    for (int64_t oc = 0; oc < df[0]; oc++)
      for (int64_t p = 0; p < osp; p++) {
        VP_T r = 0;
        double scale = 0;
        for (int64_t ic = 0; ic < gi; ic++)
          for (int64_t q = 0; q < fsp; q++) {
            int64_t pp = p, qq = q, off = 0, mul = 1;
            int in = 1;
            for (int d = VP_ND - 1; d >= 2; d--) {
              int64_t pos = (pp % od[d]) * st[d - 2] - pa[d - 2] + (qq % df[d]) * dl[d - 2];
              pp /= od[d];
              qq /= df[d];
              if (pos < 0 || pos >= di[d]) in = 0;
              off += pos * mul;
              mul *= di[d];
            }
            if (in) {
              VP_T u = a[(b * di[1] + (oc / go) * gi + ic) * isp + off], v = f[(oc * gi + ic) * fsp + q];
              r += u * v;
#if !defined(VP_CBMC) || defined(VP_SPLIT)
              scale += vp_fabs((double)u * (double)v);
#elif VP_STAGE == 2
              scale += 64;
#endif
            }
          }
        VP_ASSERT(VP_NEAR(z[(b * od[1] + oc) * osp + p], r, scale), "element is the sum over the zero-padded window times the filter");
      }
  VP_REACHED();
}
