/* C23 squeeze, C24 reshape, C25 duplicate and full. */
#include "vp.h"
#include "shape.h"
#include "src/basic/squeeze.h"
#include "src/basic/reshape.h"
#include "src/basic/duplicate.h"
#include "src/basic/factories.h"
static VP_T a[VP_N1];

#if VP_MODE == 1
#define LO (-2)
#define HI (VP_ND + 1)
static void vp_try(int64_t *ax) {
  vp_live = vp_nalloc = 0;   /* constants again for the symbolic execution */
  vp_fail_at = -1;
  Tensor x = vp_tensor_of(VP_K, vp_d, VP_ND, a), o = NULL;
  long held = vp_live;
  int64_t keep[VP_NAX + 1];
  int bad = 0;
  for (int i = 0; i < VP_NAX; i++) { keep[i] = ax[i]; if (ax[i] < 0 || ax[i] >= VP_ND) bad = 1; }
  Status s = aitisa_squeeze(x, ax, VP_NAX, &o);
  if (bad) {
    VP_ASSERT(s != STATUS_SUCCESS, "an axis the tensor does not have is refused");
    VP_ASSERT(o == NULL && vp_live == held, "a refused call leaves nothing behind");
  } else {
    VP_ASSERT(s == STATUS_SUCCESS, "valid axes are accepted");
    int64_t want[VP_ND + 1], n = 0;
    for (int i = 0; i < VP_ND; i++) {
      int drop = vp_d[i] == 1 && VP_NAX == 0;
      for (int j = 0; j < VP_NAX; j++) if (keep[j] == i && vp_d[i] == 1) drop = 1;
      if (!drop) want[n++] = vp_d[i];
    }
    vp_check_shape(o, VP_K, want, n);
    VP_T *z = aitisa_tensor_data(o);
    for (int i = 0; i < VP_N; i++) VP_ASSERT(VP_SAME(z[i], a[i]), "elements keep their order");
    for (int i = 0; i < VP_NAX; i++) VP_ASSERT(ax[i] == keep[i], "the axis list is left alone");
  }
}
void vp_harness(void) {
  int64_t ax[VP_NAX + 1];
  for (int i = 0; i < VP_NAX; i++) ax[i] = (int64_t)vp_u64();
#if VP_NAX == 0
  vp_try(ax);
#elif VP_NAX == 1
  for (int64_t i = LO; i <= HI; i++)
    if (ax[0] == i) { int64_t c[2] = {i}; vp_try(c); }
  if (ax[0] < LO || ax[0] > HI) {
    vp_live = vp_nalloc = 0;
    vp_fail_at = -1;
    Tensor x = vp_tensor_of(VP_K, vp_d, VP_ND, a), o = NULL;
    VP_ASSERT(aitisa_squeeze(x, ax, 1, &o) != STATUS_SUCCESS && o == NULL, "an axis the tensor does not have is refused");
  }
#else
  for (int i = 0; i < VP_NAX; i++) VP_ASSUME(ax[i] >= -1 && ax[i] <= VP_ND);
  for (int64_t i = -1; i <= VP_ND; i++)
    for (int64_t j = -1; j <= VP_ND; j++)
      if (ax[0] == i && ax[1] == j) { int64_t c[3] = {i, j}; vp_try(c); }
#endif
  VP_REACHED();
}
#elif VP_MODE == 2
void vp_harness(void) {
  Tensor x = vp_tensor_of(VP_K, vp_d, VP_ND, a), o = NULL;
  int64_t nd[VP_NR + 1], keep[VP_NR + 1], prod = 1;
  for (int i = 0; i < VP_NR; i++) { nd[i] = keep[i] = vp_range(0, VP_N + 2); prod *= nd[i]; }
  long held = vp_live;
  Status s = aitisa_reshape(x, nd, VP_NR, &o);
  if (prod != VP_N) {
    VP_ASSERT(s == STATUS_DIMENSIONS_MISMATCH, "a shape with another element count is refused");
    VP_ASSERT(o == NULL && vp_live == held, "a refused call leaves nothing behind");
  } else {
    VP_ASSERT(s == STATUS_SUCCESS, "a shape with the same element count is accepted");
    vp_check_shape(o, VP_K, keep, VP_NR);
    VP_T *z = aitisa_tensor_data(o);
    for (int i = 0; i < VP_N; i++) VP_ASSERT(VP_SAME(z[i], a[i]), "elements keep their order");
    for (int i = 0; i < VP_NR; i++) nd[i] = -9;
    vp_check_shape(o, VP_K, keep, VP_NR);
  }
  VP_REACHED();
}
#elif VP_MODE == 3
void vp_harness(void) {
  Tensor x = vp_tensor_of(VP_K, vp_d, VP_ND, a), o = NULL;
  VP_ASSERT(aitisa_duplicate(x, &o) == STATUS_SUCCESS, "duplicate succeeds");
  vp_check_shape(o, VP_K, vp_d, VP_ND);
  VP_T *z = aitisa_tensor_data(o), *p = aitisa_tensor_data(x);
  VP_ASSERT(z != p || VP_N == 0, "the copy has storage of its own");
  for (int i = 0; i < VP_N; i++) VP_ASSERT(VP_SAME(z[i], a[i]), "elements are equal");
  for (int i = 0; i < VP_N; i++) z[i] = 1;
  for (int i = 0; i < VP_N; i++) VP_ASSERT(VP_SAME(p[i], a[i]), "writing the copy leaves the original");
  VP_REACHED();
}
#elif VP_MODE == 5
/* a negative number of axes */
void vp_harness(void) {
  Tensor x = vp_tensor_of(VP_K, vp_d, VP_ND, a), o = NULL;
  int64_t ax[2] = {0, 0}, n = (int64_t)vp_u64();
  VP_ASSUME(n < 0);
  long held = vp_live;
  VP_ASSERT(aitisa_squeeze(x, ax, n, &o) != STATUS_SUCCESS, "a negative number of axes is refused");
  VP_ASSERT(o == NULL && vp_live == held, "a refused call leaves nothing behind");
  VP_REACHED();
}
#elif VP_MODE == 4
void vp_harness(void) {
  union { double d; uint64_t u; } v;
  v.u = vp_u64();
#if VP_FLT
  VP_ASSUME(v.d >= -1e30 && v.d <= 1e30);
#else
  VP_ASSUME(v.d > ((VP_T)-1 > 0 ? -1.0 : sizeof(VP_T) == 8 ? -9.2e18 : -(double)(1ull << (8 * (sizeof(VP_T) & 7) - 1)) - 0.5));
  VP_ASSUME(v.d < (sizeof(VP_T) == 8 ? ((VP_T)-1 > 0 ? 1.8e19 : 9.2e18) : (double)(1ull << (8 * (sizeof(VP_T) & 7) - ((VP_T)-1 > 0 ? 0 : 1)))));
#endif
  Tensor o = NULL;
  int64_t d[VP_ND + 1];
  for (int i = 0; i < VP_ND; i++) d[i] = vp_d[i];
  VP_ASSERT(aitisa_full(VP_K, vp_cpu, d, VP_ND, v.d, &o) == STATUS_SUCCESS, "full succeeds");
  for (int i = 0; i < VP_ND; i++) d[i] = -9;
  vp_check_shape(o, VP_K, vp_d, VP_ND);
  VP_T *z = aitisa_tensor_data(o);
  for (int i = 0; i < VP_N; i++) VP_ASSERT(VP_SAME(z[i], (VP_T)v.d), "every element is the value converted to the tensor's type");
  (void)a;
  VP_REACHED();
}
#endif
