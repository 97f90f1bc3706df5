/* Whole grids of shapes and parameters for one operator in one query.  The grid
 * point is walked concretely; the elements are symbolic and
 * shared by every grid point. */
#include "vp.h"
#include "src/basic/reshape.h"
#include "src/basic/slice.h"
#include "src/basic/squeeze.h"
#include "src/basic/duplicate.h"
#include "src/math/binary_op.h"
#include "src/math/dot.h"
#include "src/math/matmul.h"
#include "src/nn/conv.h"
#include "src/nn/pooling.h"
#include "src/nn/relu.h"

#ifndef VP_NEL
#define VP_NEL 16
#endif
static VP_T pa_[VP_NEL], pb_[VP_NEL];   /* the symbolic elements */
#define DROP(t) do { aitisa_destroy(&(t)); (t) = NULL; } while (0)

static Tensor mk(const VP_T *src, const int64_t *d, int64_t nd) {
  int64_t n = vp_prod(d, nd);
  VP_T *p = vp_malloc(sizeof(VP_T) * n);
  for (int64_t i = 0; i < n; i++) p[i] = src[i];
  Tensor t = NULL;
  Status s = aitisa_create(VP_K, vp_cpu, (int64_t *)d, nd, p, (unsigned)(sizeof(VP_T) * n), &t);
  VP_ASSERT(s == STATUS_SUCCESS, "creating a well-formed tensor succeeds");
  return t;
}
/* digit of *w in [lo, hi] */
static int dig(int64_t *w, int lo, int hi) {
  int r = lo + (int)(*w % (hi - lo + 1));
  *w /= hi - lo + 1;
  return r;
}

#if VP_MODE == 1 || VP_MODE == 2            /* pooling, convolution */
#define NS (VP_ND - 2)
static const int64_t di[] = VP_DIMS;
static int per(void) { return VP_KM * VP_SM * (VP_PM + 1) * VP_DM; }
/* decode one grid point; 0 when the window does not fit */
static int point(int64_t w, int *ks, int *st, int *pa, int *dl) {
  for (int d = 0; d < NS; d++) {
    ks[d] = dig(&w, 1, VP_KM);
    st[d] = dig(&w, 1, VP_SM);
    pa[d] = dig(&w, 0, VP_PM);
    dl[d] = dig(&w, 1, VP_DM);
    if (dl[d] * (ks[d] - 1) + 1 > di[d + 2] + 2 * pa[d]) return 0;
  }
  return 1;
}
#endif

#if VP_MODE == 1
static void one(const int *ks, const int *st, const int *pa, const int *dl) {
  Tensor x = mk(pa_, di, VP_ND), o = NULL;
  Status s = aitisa_pooling(x, VP_PMODE, ks, st, pa, dl, &o);
  VP_ASSERT(s == STATUS_SUCCESS, "window that fits is accepted");
  int64_t od[8], osp = 1, isp = 1, win = 1;
  od[0] = di[0];
  od[1] = di[1];
  for (int d = 2; d < VP_ND; d++) {
    od[d] = (di[d] + 2 * pa[d - 2] - (dl[d - 2] * (ks[d - 2] - 1) + 1)) / st[d - 2] + 1;
    osp *= od[d];
    isp *= di[d];
    win *= ks[d - 2];
  }
  vp_check_shape(o, VP_K, od, VP_ND);
  VP_T *z = aitisa_tensor_data(o);
  for (int64_t c = 0; c < di[0] * di[1]; c++)
    for (int64_t p = 0; p < osp; p++) {
      VP_T best = 0;
      int any = 0, pad = 0;
      double sum = 0, scale = 0;
      for (int64_t q = 0; q < win; q++) {
        int64_t pp = p, qq = q, off = 0, mul = 1;
        int in = 1;
        for (int d = VP_ND - 1; d >= 2; d--) {
          int64_t pos = (pp % od[d]) * st[d - 2] - pa[d - 2] + (qq % ks[d - 2]) * dl[d - 2];
          pp /= od[d];
          qq /= ks[d - 2];
          if (pos < 0 || pos >= di[d]) in = 0;
          off += pos * mul;
          mul *= di[d];
        }
        if (in) {
          VP_T v = pa_[c * isp + off];
          sum += v;
#if !defined(VP_CBMC) || VP_STAGE == 2
          scale += vp_fabs((double)v);
#endif
          if (!any || v > best) best = v;
          any = 1;
        } else
          pad = 1;
      }
      if (pad && !(best > 0)) best = 0;
#if VP_MAX
      VP_ASSERT(z[c * osp + p] == best, "largest value of the zero-padded window");
#else
      VP_T r = (VP_T)(sum / win);
      VP_ASSERT(VP_NEAR(z[c * osp + p], r, scale), "mean of the zero-padded window");
#endif
    }
  DROP(x);
  DROP(o);
}
#endif

#if VP_MODE == 2
static void one(const int *ks, const int *st, const int *pa, const int *dl) {
  int64_t df[8] = {VP_OC, VP_IC}, od[8];
  int64_t osp = 1, fsp = 1, isp = 1;
  od[0] = di[0];
  od[1] = df[0];
  for (int d = 2; d < VP_ND; d++) {
    df[d] = ks[d - 2];
    od[d] = (di[d] + 2 * pa[d - 2] - (dl[d - 2] * (df[d] - 1) + 1)) / st[d - 2] + 1;
    osp *= od[d];
    fsp *= df[d];
    isp *= di[d];
  }
  Tensor x = mk(pa_, di, VP_ND), y = mk(pb_, df, VP_ND), o = NULL;
  int groups = (int)(di[1] / df[1]);
  Status s = aitisa_conv(x, y, st, pa, dl, groups, &o);
  VP_ASSERT(s == STATUS_SUCCESS, "well-formed convolution is accepted");
  vp_check_shape(o, VP_K, od, VP_ND);
  VP_T *z = aitisa_tensor_data(o);
  int64_t gi = df[1], go = df[0] / groups;
  for (int64_t b = 0; b < di[0]; b++)
    for (int64_t oc = 0; oc < df[0]; oc++)
      for (int64_t p = 0; p < osp; p++) {
        VP_T r = 0;
        double scale = 0;
        for (int64_t ic = 0; ic < gi; ic++)
          for (int64_t q = 0; q < fsp; q++) {
            int64_t pp = p, qq = q, off = 0, mul = 1;
            int in = 1;
            for (int d = VP_ND - 1; d >= 2; d--) {
              int64_t pos = (pp % od[d]) * st[d - 2] - pa[d - 2] + (qq % df[d]) * dl[d - 2];
              pp /= od[d];
              qq /= df[d];
              if (pos < 0 || pos >= di[d]) in = 0;
              off += pos * mul;
              mul *= di[d];
            }
            if (in) {
              VP_T u = pa_[(b * di[1] + (oc / go) * gi + ic) * isp + off], v = pb_[(oc * gi + ic) * fsp + q];
              r += u * v;
#if !defined(VP_CBMC) || defined(VP_SPLIT)
              scale += vp_fabs((double)u * (double)v);
#elif VP_STAGE == 2
              scale += 64;
#endif
            }
          }
        VP_ASSERT(VP_NEAR(z[(b * od[1] + oc) * osp + p], r, scale), "element is the sum over the zero-padded window times the filter");
      }
  DROP(x);
  DROP(y);
  DROP(o);
}
#endif

#if VP_MODE == 3                             /* slice */
static const int64_t di[] = VP_DIMS;
static void one(const int *at, const int *size, const int *step) {
  Tensor x = mk(pa_, di, VP_ND), o = NULL;
  int begin[8], sz[8], sp[8];
  int64_t od[8], cnt[8], ond = 0, total = 1;
  for (int i = 0; i < VP_ND; i++) {
    sz[i] = size[i];
    sp[i] = step[i];
    begin[i] = at[i];
    int64_t n = (size[i] + step[i] - 1) / step[i];
    cnt[i] = n ? n : 1;
    if (n) od[ond++] = n;
    total *= cnt[i];
  }
  Status s = aitisa_slice(x, begin, sz, sp, &o);
  VP_ASSERT(s == STATUS_SUCCESS, "in-range slice is accepted");
  vp_check_shape(o, VP_K, od, ond);
  VP_T *z = aitisa_tensor_data(o);
  for (int64_t k = 0; k < total; k++) {
    int64_t rem = k, off = 0, mul = 1;
    for (int i = VP_ND - 1; i >= 0; i--) {
      int64_t c = rem % cnt[i];
      rem /= cnt[i];
      off += (begin[i] + c * step[i]) * mul;
      mul *= di[i];
    }
    VP_ASSERT(VP_SAME(z[k], pa_[off]), "element k of the slice is input[begin + k*step]");
  }
  DROP(x);
  DROP(o);
}
#endif

#if VP_MODE == 4 || VP_MODE == 5             /* matmul (all ranks), dot */
static void one(const int64_t *da, int na, const int64_t *db, int nb) {
  Tensor x = mk(pa_, da, na), y = mk(pb_, db, nb), o = NULL;
  int64_t od[16], ond = 0, K = da[na - 1], total = 1;
#if VP_MODE == 4
  Status s = aitisa_matmul(x, y, &o);
  /* batch dimensions, aligned at the right */
  int ba = na > 2 ? na - 2 : 0, bb = nb > 2 ? nb - 2 : 0, bo = ba > bb ? ba : bb;
  int64_t M = na > 1 ? da[na - 2] : 1, N = nb > 1 ? db[nb - 1] : 1;
  for (int i = 0; i < bo; i++) {
    int64_t p = i - (bo - ba) >= 0 ? da[i - (bo - ba)] : 1, q = i - (bo - bb) >= 0 ? db[i - (bo - bb)] : 1;
    od[ond++] = p == 1 ? q : p;
  }
  if (na > 1) od[ond++] = M;
  if (nb > 1) od[ond++] = N;
  if (na == 1 && nb == 1) od[ond++] = 1;
#else
  Status s = aitisa_dot(x, y, &o);
  int64_t I = 1, J = 1, L = 1;
  for (int i = 0; i < na - 1; i++) { I *= da[i]; od[ond++] = da[i]; }
  if (nb >= 2) {
    for (int i = 0; i < nb - 2; i++) { J *= db[i]; od[ond++] = db[i]; }
    L = db[nb - 1];
    od[ond++] = L;
  }
  if (na == 1 && nb == 1) od[ond++] = 1;
#endif
  VP_ASSERT(s == STATUS_SUCCESS, "well-formed operands are accepted");
  for (int i = 0; i < ond; i++) total *= od[i];
  vp_check_shape(o, VP_K, od, ond);
  VP_T *z = aitisa_tensor_data(o);
  for (int64_t e = 0; e < total; e++) {
    int64_t oa, ob, sb;                      /* first element of the row / column, column stride */
#if VP_MODE == 4
    int64_t m = (e / N) % M, n = e % N, batch = e / (M * N), xa = 0, xb = 0, sa = 1, sbt = 1;
    for (int i = bo - 1; i >= 0; i--) {
      int64_t c = batch % od[i];
      batch /= od[i];
      int64_t p = i - (bo - ba) >= 0 ? da[i - (bo - ba)] : 1, q = i - (bo - bb) >= 0 ? db[i - (bo - bb)] : 1;
      if (p != 1) xa += c * sa;
      if (q != 1) xb += c * sbt;
      sa *= p;
      sbt *= q;
    }
    oa = (xa * M + m) * K;
    ob = xb * K * N + n;
    sb = N;
#else
    int64_t l = e % L, j = (e / L) % J, i = e / (L * J);
    oa = i * K;
    ob = j * K * L + l;
    sb = L;
#endif
    VP_T r = 0;
    double scale = 0;
    for (int64_t q = 0; q < K; q++) {
      VP_T u = pa_[oa + q], v = pb_[ob + q * sb];
      r += u * v;
#if !defined(VP_CBMC) || defined(VP_SPLIT)
      scale += vp_fabs((double)u * (double)v);
#elif VP_STAGE == 2
      scale += 64;
#endif
    }
    VP_ASSERT(VP_NEAR(z[e], r, scale), "element is the sum of products");
  }
  DROP(x);
  DROP(y);
  DROP(o);
}
#endif

#if VP_MODE == 6                             /* shape-only operators on every shape */
static void one(const int64_t *d, int nd, const int64_t *ax, int nax) {
  Tensor x = mk(pa_, d, nd), o = NULL;
  int64_t n = vp_prod(d, nd), od[8], ond = 0;
#if VP_SUB == 0
  for (int i = 0; i < nd; i++) {
    int drop = nax == 0;
    for (int k = 0; k < nax; k++) drop |= ax[k] == i;
    if (!(drop && d[i] == 1)) od[ond++] = d[i];
  }
  Status s = aitisa_squeeze(x, nax ? (int64_t *)ax : NULL, nax, &o);
#elif VP_SUB == 1
  Status s = aitisa_duplicate(x, &o);
#elif VP_SUB == 2
  Tensor y = mk(pb_, d, nd);
  Status s = aitisa_sub(x, y, &o);
  DROP(y);
#else
  Status s = aitisa_relu(x, &o);
#endif
#if VP_SUB != 0
  for (int i = 0; i < nd; i++) od[ond++] = d[i];
#endif
  VP_ASSERT(s == STATUS_SUCCESS, "call succeeds");
  vp_check_shape(o, VP_K, od, ond);
  VP_T *z = aitisa_tensor_data(o);
  for (int64_t i = 0; i < n; i++) {
#if VP_SUB == 2
    VP_ASSERT(VP_SAME(z[i], (VP_T)(pa_[i] - pb_[i])), "element is the difference");
#elif VP_SUB == 3
    if (pa_[i] == pa_[i]) VP_ASSERT(z[i] == (pa_[i] > 0 ? pa_[i] : 0), "relu(x) = max(x, 0)");
#else
    VP_ASSERT(VP_SAME(z[i], pa_[i]), "elements keep their order");
#endif
  }
  DROP(x);
  DROP(o);
}
#endif

void vp_harness(void) {
  for (int i = 0; i < VP_NEL; i++) {
    pa_[i] = vp_elem();
    pb_[i] = vp_elem();
#if VP_MODE == 1
    VP_ASSUME(pa_[i] == pa_[i]);
#if !VP_FLT
    VP_ASSUME((double)pa_[i] <= 1e15 && (double)pa_[i] >= -1e15);
#endif
#endif
  }
#if VP_MODE == 1 || VP_MODE == 2
  int64_t total = 1;
  for (int d = 0; d < NS; d++) total *= per();
  for (int64_t w = VP_FROM; w < total; w += VP_EVERY) {
    int ks[3], st[3], pa[3], dl[3];
    if (point(w, ks, st, pa, dl)) one(ks, st, pa, dl);
  }
#elif VP_MODE == 3
  int64_t total = 1;
  for (int i = 0; i < VP_ND; i++) total *= (di[i] + 1) * VP_SM * di[i];
  for (int64_t w0 = VP_FROM; w0 < total; w0 += VP_EVERY) {
    int64_t w = w0;
    int at[8], size[8], step[8], fits = 1;
    for (int i = 0; i < VP_ND; i++) {
      at[i] = dig(&w, 0, (int)di[i] - 1);
      size[i] = dig(&w, 0, (int)di[i]);
      step[i] = dig(&w, 1, VP_SM);
      if (at[i] + size[i] > di[i]) fits = 0;
    }
    if (fits) one(at, size, step);
  }
#elif VP_MODE == 4
  /* batch dims 1..2 (a broadcastable pair), matrix dims 1..2 */
  int ba = VP_NA > 2 ? VP_NA - 2 : 0, bb = VP_NB > 2 ? VP_NB - 2 : 0;
  int64_t total = 1;
  for (int i = 0; i < ba + bb; i++) total *= 2;
  total *= VP_MD * VP_MD * VP_MD;
  for (int64_t w0 = VP_FROM; w0 < total; w0 += VP_EVERY) {
    int64_t w = w0, da[8], db[8];
    int m = dig(&w, VP_LO, VP_LO + VP_MD - 1), k = dig(&w, VP_LO, VP_LO + VP_MD - 1), n = dig(&w, VP_LO, VP_LO + VP_MD - 1);
    for (int i = 0; i < ba; i++) da[i] = dig(&w, 1, 2);
    for (int i = 0; i < bb; i++) db[i] = dig(&w, 1, 2);
    if ((VP_NA == 1 && m != VP_LO) || (VP_NB == 1 && n != VP_LO)) continue;   /* no such dimension */
    if (VP_NA > 1) da[VP_NA - 2] = m;
    da[VP_NA - 1] = k;
    if (VP_NB > 1) db[VP_NB - 2] = k;
    db[VP_NB - 1] = VP_NB > 1 ? n : k;
    one(da, VP_NA, db, VP_NB);
  }
#elif VP_MODE == 5
  int64_t total = 1;
  int nfree = VP_NA - 1 + (VP_NB > 1 ? VP_NB - 1 : 0) + 1;
  for (int i = 0; i < nfree; i++) total *= VP_MD;
  for (int64_t w0 = VP_FROM; w0 < total; w0 += VP_EVERY) {
    int64_t w = w0, da[8], db[8];
    int k = dig(&w, 1, VP_MD);
    for (int i = 0; i < VP_NA - 1; i++) da[i] = dig(&w, 1, VP_MD);
    da[VP_NA - 1] = k;
    for (int i = 0; i < VP_NB; i++) db[i] = i == (VP_NB > 1 ? VP_NB - 2 : 0) ? k : dig(&w, 1, VP_MD);
    one(da, VP_NA, db, VP_NB);
  }
#else
  int64_t total = 1, d[8], ax[8];
  for (int i = 0; i < VP_ND; i++) total *= (VP_HI + 1) * (VP_SUB == 0 ? 2 : 1);
  for (int64_t w0 = VP_FROM; w0 < total; w0 += VP_EVERY) {
    int64_t w = w0;
    for (int i = 0; i < VP_ND; i++) d[i] = dig(&w, 0, VP_HI);
#if VP_SUB == 0
    int nax = 0;                               /* any set of axes; the empty one means all */
    for (int i = 0; i < VP_ND; i++)
      if (w >> i & 1) ax[nax++] = i;
    one(d, VP_ND, ax, nax);
#else
    one(d, VP_ND, ax, 0);
#endif
  }
#endif
  VP_REACHED();
}
