/* relu / sigmoid / tanh / sqrt.  Symbolic: every element. */
#include "vp.h"
#include "shape.h"
#include <math.h>
#include "src/nn/relu.h"
#include "src/nn/sigmoid.h"
#include "src/nn/tanh.h"
#include "src/math/sqrt.h"
#define RELU 1
#define SIGMOID 2
#define TANH 3
#define SQRT 4
void vp_harness(void) {
  VP_T a[VP_N1];
  Tensor x = vp_tensor_of(VP_K, vp_d, VP_ND, a), o = NULL;
#if VP_OPN == RELU
  Status s = aitisa_relu(x, &o);
#elif VP_OPN == SIGMOID
  Status s = aitisa_sigmoid(x, &o);
#elif VP_OPN == TANH
  Status s = aitisa_tanh(x, &o);
#elif VP_OPN == SQRT
#ifdef VP_NEG
  /* at least one element is negative: the call must refuse */
  int neg = 0;
  for (int i = 0; i < VP_N; i++) neg |= a[i] < 0;
  VP_ASSUME(neg);
  Status sn = aitisa_sqrt(x, &o);
  VP_ASSERT(sn == STATUS_MATH_ERROR, "a negative element is refused with a math error");
  VP_REACHED();
  return;
#endif
  for (int i = 0; i < VP_N; i++) {
    VP_ASSUME(!(a[i] < 0));
#if !VP_FLT
    VP_ASSUME((uint64_t)a[i] <= ((uint64_t)1 << 52));   /* exactly representable in double */
#endif
  }
  Status s = aitisa_sqrt(x, &o);
#endif
#ifdef VP_UNSUPPORTED
  VP_ASSERT(s == STATUS_NOT_SUPPORTED, "integer element types are reported as not supported");
  VP_REACHED();
  return;
#endif
  VP_ASSERT(s == STATUS_SUCCESS, "call succeeds");
  vp_check_shape(o, VP_K, vp_d, VP_ND);
  VP_T *z = aitisa_tensor_data(o);
  for (int i = 0; i < VP_N; i++) {
    VP_T v = a[i];
#if VP_OPN == RELU
    if (v == v) VP_ASSERT(z[i] == (v > 0 ? v : 0), "relu(x) = max(x, 0)");
#elif VP_OPN == SIGMOID
    VP_T r = (VP_T)(1 / (1 + exp(-v)));
    VP_ASSERT(VP_NEAR(z[i], r, 1), "sigmoid(x) = 1/(1+exp(-x))");
#elif VP_OPN == TANH
    VP_T r = (VP_T)tanh((double)v);
    VP_ASSERT(VP_NEAR(z[i], r, 1), "tanh(x)");
#elif VP_OPN == SQRT
    VP_T r = (VP_T)sqrt((double)v);
    VP_ASSERT(VP_NEAR(z[i], r, (double)r), "square root of the element");
#if !VP_FLT && !defined(VP_CBMC)
    VP_ASSERT((uint64_t)z[i] * z[i] <= (uint64_t)v && ((uint64_t)z[i] + 1) * ((uint64_t)z[i] + 1) > (uint64_t)v, "floor of the square root");
#endif
#endif
  }
  VP_REACHED();
}
