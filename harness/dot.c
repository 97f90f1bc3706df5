/* dot against its documented definition.  Symbolic: every element. */
#include "vp.h"
#include "src/math/dot.h"
#if VP_NA == 0
static const int64_t da[1] = {1};
#else
static const int64_t da[] = VP_DA;
#endif
#if VP_NB == 0
static const int64_t db[1] = {1};
#else
static const int64_t db[] = VP_DB;
#endif
#define P1(x) ((x) ? (x) : 1)
void vp_harness(void) {
  VP_T a[P1(VP_SA)], b[P1(VP_SB)];
  Tensor x = vp_tensor_of(VP_K, da, VP_NA, a), y = vp_tensor_of(VP_K, db, VP_NB, b), o = NULL;
  Status s = aitisa_dot(x, y, &o);
  VP_ASSERT(s == STATUS_SUCCESS, "documented operand ranks are accepted");
#if VP_NA == 0 || VP_NB == 0
  const int64_t *od = VP_NA > VP_NB ? da : db;
  int64_t ond = VP_NA > VP_NB ? VP_NA : VP_NB, n = VP_NA > VP_NB ? VP_SA : VP_SB;
  vp_check_shape(o, VP_K, od, ond);
  VP_T *z = aitisa_tensor_data(o);
  for (int64_t i = 0; i < n; i++) {
    VP_T r = VP_NA > VP_NB ? (VP_T)(b[0] * a[i]) : (VP_T)(a[0] * b[i]);
    VP_ASSERT(VP_SAME(z[i], r), "scalar times element");
  }
#else
  /* a: [I.., K]; b: [J.., K, L] (or [K]) */
  int64_t K = da[VP_NA - 1], I = 1, J = 1, L = 1, od[16], ond = 0;
  for (int i = 0; i < VP_NA - 1; i++) { I *= da[i]; od[ond++] = da[i]; }
  if (VP_NB >= 2) {
    for (int i = 0; i < VP_NB - 2; i++) { J *= db[i]; od[ond++] = db[i]; }
    L = db[VP_NB - 1];
    od[ond++] = L;
  }
  if (VP_NA == 1 && VP_NB == 1) od[ond++] = 1;
  vp_check_shape(o, VP_K, od, ond);
  VP_T *z = aitisa_tensor_data(o);
  for (int64_t i = 0; i < I; i++)
    for (int64_t j = 0; j < J; j++)
      for (int64_t l = 0; l < L; l++) {
        VP_T r = 0;
        double scale = 0;
        for (int64_t q = 0; q < K; q++) {
          VP_T u = a[i * K + q], v = b[(j * K + q) * L + l];
          r += u * v;
#if !defined(VP_CBMC) || defined(VP_SPLIT)
          scale += vp_fabs((double)u * (double)v);
#elif VP_STAGE == 2
          scale += 64;
#endif
        }
        VP_ASSERT(VP_NEAR(z[(i * J + j) * L + l], r, scale), "element is the documented sum of products");
      }
#endif
  VP_REACHED();
}
