/* matmul against the mathematical definition.  Symbolic: every element. */
#include "vp.h"
#include "src/math/matmul.h"
#include "src/math/dot.h"
#ifndef VP_FN
#define VP_FN aitisa_matmul
#endif
static const int64_t da[] = VP_DA, db[] = VP_DB;
#define P1(x) ((x) ? (x) : 1)
void vp_harness(void) {
  VP_T a[P1(VP_SA)], b[P1(VP_SB)];
  Tensor x = vp_tensor_of(VP_K, da, VP_NA, a), y = vp_tensor_of(VP_K, db, VP_NB, b), o = NULL;
  /* promote vectors */
  int64_t ea[8], eb[8], na = VP_NA, nb = VP_NB;
  for (int i = 0; i < VP_NA; i++) ea[i] = da[i];
  for (int i = 0; i < VP_NB; i++) eb[i] = db[i];
  if (na == 1) { ea[1] = ea[0]; ea[0] = 1; na = 2; }
  if (nb == 1) { eb[1] = 1; nb = 2; }
  int64_t M = ea[na - 2], K = ea[na - 1], N = eb[nb - 1];
  int64_t nba = na - 2, nbb = nb - 2, nbo = nba > nbb ? nba : nbb;
  int64_t bd[8], od[10], ond = 0, nbatch = 1;
  for (int64_t i = 0; i < nbo; i++) {
    int64_t p = i - (nbo - nba) >= 0 ? ea[i - (nbo - nba)] : 1;
    int64_t q = i - (nbo - nbb) >= 0 ? eb[i - (nbo - nbb)] : 1;
    bd[i] = p == 1 ? q : p;
    od[ond++] = bd[i];
    nbatch *= bd[i];
  }
  if (VP_NA != 1) od[ond++] = M;
  if (VP_NB != 1) od[ond++] = N;
  if (VP_NA == 1 && VP_NB == 1) od[ond++] = 1;
  Status s = VP_FN(x, y, &o);
  VP_ASSERT(s == STATUS_SUCCESS, "compatible shapes are accepted");
  vp_check_shape(o, VP_K, od, ond);
  VP_T *z = aitisa_tensor_data(o);
  for (int64_t bt = 0; bt < nbatch; bt++) {
    int64_t ia = 0, ib = 0, rem = bt, sa = 1, sb = 1;
    for (int64_t i = nbo - 1; i >= 0; i--) {
      int64_t c = rem % bd[i];
      rem /= bd[i];
      int64_t p = i - (nbo - nba) >= 0 ? ea[i - (nbo - nba)] : 1;
      int64_t q = i - (nbo - nbb) >= 0 ? eb[i - (nbo - nbb)] : 1;
      if (p != 1) ia += c * sa;
      if (q != 1) ib += c * sb;
      sa *= p;
      sb *= q;
    }
    for (int64_t i = 0; i < M; i++)
      for (int64_t j = 0; j < N; j++) {
        VP_T r = 0;
        double scale = 0;
        for (int64_t q = 0; q < K; q++) {
          VP_T u = a[(ia * M + i) * K + q], v = b[(ib * K + q) * N + j];
          r += u * v;
#if !defined(VP_CBMC) || defined(VP_SPLIT)
          scale += vp_fabs((double)u * (double)v);
#elif VP_STAGE == 2
          scale += 64;
#endif
        }
        VP_ASSERT(VP_NEAR(z[(bt * M + i) * N + j], r, scale), "element is the inner product of a row and a column");
      }
  }
  VP_REACHED();
}
