/* C27: coordinates, linear indices, offsets and strides.  Symbolic: the dimensions,
 * the coordinates, the linear index. */
#include "vp.h"
#include "src/basic/index_utils.h"
#ifndef VP_DMAX
#define VP_DMAX 4
#endif
void vp_harness(void) {
  int64_t d[5] = {0}, c[5] = {0}, e[5] = {0}, st[5] = {0};
  int64_t n = 1;
#ifdef VP_DIMS
  static const int64_t fixed[] = VP_DIMS;
  for (int i = 0; i < VP_ND; i++) { d[i] = fixed[i]; n *= d[i]; }
#else
  for (int i = 0; i < VP_ND; i++) { d[i] = vp_range(1, VP_DMAX); n *= d[i]; }
#endif
  Tensor t = NULL;
  /* one-byte elements over a caller buffer: only the shape matters */
  VP_ASSERT(aitisa_create(kInt8, vp_cpu, d, VP_ND, NULL, 0, &t) == STATUS_SUCCESS, "create succeeds");
  int64_t ref[5] = {0}, want = 0;
  for (int i = 0; i < VP_ND; i++) { c[i] = vp_range(0, 63); VP_ASSUME(c[i] < d[i]); }
#ifdef VP_PERM
  /* any storage order: min2maj lists the dimensions from the fastest to the slowest */
  int64_t *m = aitisa_tensor_shape(t).layout.min2maj, seen = 0, s = 1;
  int64_t perm[5];
  for (int i = 0; i < VP_ND; i++) {
    perm[i] = vp_range(0, VP_ND - 1);
    VP_ASSUME(((seen >> perm[i]) & 1) == 0);
    seen |= (int64_t)1 << perm[i];
    m[i] = perm[i];
  }
  for (int i = 0; i < VP_ND; i++)
    for (int k = 0; k < VP_ND; k++)
      if (perm[i] == k) { ref[k] = s; s *= d[k]; }
#else
  for (int i = VP_ND - 1; i >= 0; i--) ref[i] = i == VP_ND - 1 ? 1 : ref[i + 1] * d[i + 1];
#endif
  int64_t lin = 0;
  for (int i = 0; i < VP_ND; i++) { want += ref[i] * c[i]; lin = lin * d[i] + c[i]; }
#if VP_MODE == 1
  int64_t l = aitisa_coords_to_linidx(t, c, VP_ND);
  VP_ASSERT(l == lin, "row-major linear index");
  VP_ASSERT(l >= 0 && l < n, "the linear index is inside the tensor");
  aitisa_linidx_to_coords(t, l, e);
  for (int i = 0; i < VP_ND; i++) VP_ASSERT(e[i] == c[i], "index to coordinates undoes coordinates to index");
#elif VP_MODE == 2
  int64_t l = aitisa_coords_to_offset(t, c, VP_ND);
  VP_ASSERT(l == want, "offset in storage order");
  VP_ASSERT(l >= 0 && l < n, "the offset is inside the tensor");
  aitisa_offset_to_coords(t, l, e);
  for (int i = 0; i < VP_ND; i++) VP_ASSERT(e[i] == c[i], "offset to coordinates undoes coordinates to offset");
#elif VP_MODE == 3
  aitisa_get_all_strides(t, st);
  for (int i = 0; i < VP_ND; i++) {
    VP_ASSERT(st[i] == ref[i], "stride in storage order");
    VP_ASSERT(aitisa_get_stride(t, i) == ref[i], "stride of one dimension");
  }
#elif VP_MODE == 4
  int64_t l = vp_range(0, 4095);
  VP_ASSUME(l < n);
  aitisa_linidx_to_coords(t, l, e);
  for (int i = 0; i < VP_ND; i++) VP_ASSERT(e[i] >= 0 && e[i] < d[i], "coordinates inside the shape");
  VP_ASSERT(aitisa_coords_to_linidx(t, e, VP_ND) == l, "coordinates to index undoes index to coordinates");
  aitisa_offset_to_coords(t, l, e);
  for (int i = 0; i < VP_ND; i++) VP_ASSERT(e[i] >= 0 && e[i] < d[i], "coordinates inside the shape");
  VP_ASSERT(aitisa_coords_to_offset(t, e, VP_ND) == l, "coordinates to offset undoes offset to coordinates");
#endif
  for (int i = 0; i < VP_ND; i++) VP_ASSERT(aitisa_tensor_dim(t, i) == d[i], "the tensor is left alone");
  VP_REACHED();
}
