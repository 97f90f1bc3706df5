/* C09: elementwise arithmetic.  Symbolic: every element of both operands. */
#include "vp.h"
#include "shape.h"
#include "src/math/binary_op.h"
#ifndef VP_DIVIDE
#define VP_DIVIDE 0
#endif
void vp_harness(void) {
  VP_T a[VP_N1], b[VP_N1];
  Tensor x = vp_tensor_of(VP_K, vp_d, VP_ND, a), y, o = NULL;
#ifdef VP_ALIAS
  y = x;
  for (int i = 0; i < VP_N; i++) b[i] = a[i];
#else
  y = vp_tensor_of(VP_K, vp_d, VP_ND, b);
#endif
#if VP_DIVIDE && !VP_FLT
  for (int i = 0; i < VP_N; i++) {
    VP_ASSUME(b[i] != 0);                                   /* quotient is defined */
    VP_ASSUME(!((VP_T)-1 < 0 && b[i] == (VP_T)-1 && a[i] == (VP_T)((uint64_t)1 << (8 * sizeof(VP_T) - 1))));
  }
#endif
  Status s = VP_FN(x, y, &o);
  VP_ASSERT(s == STATUS_SUCCESS, "operands of equal shape and type are accepted");
  vp_check_shape(o, VP_K, vp_d, VP_ND);
  VP_T *z = aitisa_tensor_data(o);
  for (int i = 0; i < VP_N; i++) {
    VP_T r = (VP_T)(a[i] VP_OP b[i]);
    VP_ASSERT(VP_SAME(z[i], r), "each element is the operation applied to the corresponding operand elements");
  }
  VP_REACHED();
}
