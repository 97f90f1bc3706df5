/* Earlier, unrelated use of the library: concrete calls of one operator family
 * with other element types, shapes and parameters, some of them refused, before
 * the real harness starts.  Nothing of it may show in what follows. */
#ifndef VP_WARM_H
#define VP_WARM_H
#include "src/basic/broadcast.h"
#include "src/basic/cast.h"
#include "src/basic/duplicate.h"
#include "src/basic/factories.h"
#include "src/basic/index_utils.h"
#include "src/basic/reshape.h"
#include "src/basic/slice.h"
#include "src/basic/squeeze.h"
#include "src/math/binary_op.h"
#include "src/math/dot.h"
#include "src/math/matmul.h"
#include "src/math/sqrt.h"
#include "src/nn/batch_norm.h"
#include "src/nn/conv.h"
#include "src/nn/dropout.h"
#include "src/nn/pooling.h"
#include "src/nn/relu.h"
#include "src/nn/sigmoid.h"
#include "src/nn/softmax.h"
#include "src/nn/tanh.h"

#define W_BINARY 1
#define W_CAST 2
#define W_UNARY 3
#define W_SOFTMAX 4
#define W_BN 5
#define W_CONV 6
#define W_POOL 7
#define W_MATMUL 8
#define W_DOT 9
#define W_SLICE 10
#define W_SHAPE 11
#define W_DROPOUT 12

static inline Tensor vp_w(DataType k, int n, int64_t d0, int64_t d1, int64_t d2, int64_t d3, double v) {
  int64_t d[4] = {d0, d1, d2, d3};
  Tensor t = NULL;
  aitisa_full(k, vp_cpu, d, n, v, &t);
  return t;
}
#define W_DROP(t) do { if (t) aitisa_destroy(&(t)); (t) = NULL; } while (0)

/* The symbolic executor may type a later block of the same byte size like an
 * earlier one; keep integer checks free of floating cells (NaN payloads). */
#if VP_FLT
#define W_WIDE kDouble
#define W_NARROW kFloat
#else
#define W_WIDE kInt64
#define W_NARROW kInt32
#endif
static inline void vp_warm(void) {
  Tensor a = NULL, b = NULL, c = NULL, o = NULL;
  static int i1[3] = {1, 1, 1}, i0[3] = {0, 0, 0}, i2[3] = {2, 2, 2}, i3[3] = {3, 3, 3};
#if VP_WARM == W_BINARY
  a = vp_w(kInt8, 3, 1, 2, 2, 0, 3); b = vp_w(kInt8, 3, 1, 2, 2, 0, 2);
  aitisa_add(a, b, &o); W_DROP(o);
  aitisa_sub(a, b, &o); W_DROP(o);
  aitisa_mul(a, b, &o); W_DROP(o);
  aitisa_div(a, b, &o); W_DROP(o);
  c = vp_w(W_WIDE, 1, 3, 0, 0, 0, 2);
  aitisa_add(a, c, &o); aitisa_sub(a, c, &o); aitisa_mul(a, c, &o); aitisa_div(a, c, &o);
  aitisa_add(c, c, &o); W_DROP(o);
  aitisa_sub(c, c, &o); W_DROP(o);
  aitisa_mul(c, c, &o); W_DROP(o);
  aitisa_div(c, c, &o); W_DROP(o);
  W_DROP(a); W_DROP(b); a = vp_w(VP_K, 2, 3, 1, 0, 0, 3); b = vp_w(VP_K, 2, 3, 1, 0, 0, 2);
  aitisa_add(a, b, &o); W_DROP(o);
  aitisa_sub(a, b, &o); W_DROP(o);
  aitisa_mul(a, b, &o); W_DROP(o);
  aitisa_div(a, b, &o); W_DROP(o);
#elif VP_WARM == W_CAST
  a = vp_w(kInt16, 2, 1, 3, 0, 0, 3); b = vp_w(kDouble, 1, 1, 0, 0, 0, 2);
  aitisa_cast(a, kDouble, &o); W_DROP(o);
  aitisa_cast(a, kUint8, &o); W_DROP(o);
  aitisa_cast(b, kInt8, &o); W_DROP(o);
  aitisa_cast(b, kUint64, &o); W_DROP(o);
#elif VP_WARM == W_UNARY
  a = vp_w(kInt16, 2, 1, 3, 0, 0, 4); b = vp_w(W_WIDE, 1, 1, 0, 0, 0, -2); c = vp_w(W_NARROW, 1, 4, 0, 0, 0, 1);
  aitisa_relu(a, &o); W_DROP(o); aitisa_relu(b, &o); W_DROP(o); aitisa_relu(c, &o); W_DROP(o);
  aitisa_sqrt(a, &o); W_DROP(o); aitisa_sqrt(b, &o); W_DROP(o); aitisa_sqrt(c, &o); W_DROP(o);
  aitisa_sigmoid(a, &o); W_DROP(o); aitisa_sigmoid(b, &o); W_DROP(o); aitisa_sigmoid(c, &o); W_DROP(o);
  aitisa_tanh(a, &o); W_DROP(o); aitisa_tanh(b, &o); W_DROP(o); aitisa_tanh(c, &o); W_DROP(o);
  W_DROP(a); a = vp_w(VP_K, 1, 5, 0, 0, 0, 4);
  aitisa_relu(a, &o); W_DROP(o); aitisa_sqrt(a, &o); W_DROP(o); aitisa_sigmoid(a, &o); W_DROP(o); aitisa_tanh(a, &o); W_DROP(o);
#elif VP_WARM == W_SOFTMAX
  a = vp_w(kDouble, 3, 1, 3, 2, 0, 1); b = vp_w(kFloat, 1, 2, 0, 0, 0, 0); c = vp_w(kInt32, 1, 2, 0, 0, 0, 0);
  aitisa_softmax(a, 1, &o); W_DROP(o); aitisa_softmax(a, -1, &o); W_DROP(o); aitisa_softmax(b, 0, &o); W_DROP(o);
  W_DROP(c); c = vp_w(VP_K, 2, 3, 1, 0, 0, 1);
  aitisa_softmax(c, 0, &o); W_DROP(o); aitisa_softmax(c, -1, &o); W_DROP(o); W_DROP(c);
  c = vp_w(kInt32, 1, 2, 0, 0, 0, 0);
  aitisa_softmax(a, 7, &o); W_DROP(o); aitisa_softmax(c, 0, &o); W_DROP(o);
#elif VP_WARM == W_BN
  a = vp_w(kDouble, 2, 2, 3, 0, 0, 1); b = vp_w(kDouble, 1, 3, 0, 0, 0, 2); c = vp_w(kDouble, 1, 2, 0, 0, 0, 1);
  aitisa_batch_norm(a, 1, b, b, b, b, 2.0, &o); W_DROP(o);
  aitisa_batch_norm(a, 1, c, c, c, c, 2.0, &o); W_DROP(o);
  W_DROP(a); a = vp_w(kFloat, 3, 1, 2, 1, 0, 1); W_DROP(c); c = vp_w(kFloat, 1, 2, 0, 0, 0, 1);
  aitisa_batch_norm(a, 1, c, c, c, c, 1.0, &o); W_DROP(o);
#elif VP_WARM == W_CONV
  a = vp_w(kFloat, 4, 1, 2, 3, 2, 2); b = vp_w(kFloat, 4, 1, 2, 2, 1, 2);
  aitisa_conv2d(a, b, i1, 2, i0, 2, i1, 2, 1, &o); W_DROP(o);
  aitisa_conv(a, b, i2, i1, i1, 1, &o); W_DROP(o);
  aitisa_conv(a, b, i0, i0, i1, 1, &o); W_DROP(o);
  W_DROP(b); b = vp_w(kFloat, 4, 2, 1, 1, 1, 2);
  aitisa_conv2d(a, b, i1, 2, i0, 2, i1, 2, 2, &o); W_DROP(o);
#elif VP_WARM == W_POOL
  a = vp_w(kInt16, 4, 1, 2, 3, 2, 2); b = vp_w(W_WIDE, 3, 1, 1, 3, 0, 2);
  aitisa_pooling(a, "max", i2, i1, i0, i1, &o); W_DROP(o);
  aitisa_pooling(a, "avg", i2, i2, i1, i1, &o); W_DROP(o);
  aitisa_pooling(b, "max", i2, i1, i0, i2, &o); W_DROP(o);
  aitisa_pooling(b, "avg", i2, i1, i0, i1, &o); W_DROP(o);
  aitisa_pooling(b, "max", i2, i0, i0, i1, &o); W_DROP(o);
  c = vp_w(VP_K, 3, 1, 2, 4, 0, 2);
  aitisa_pooling(c, "avg", i3, i1, i0, i1, &o); W_DROP(o);
  aitisa_pooling(c, "max", i3, i2, i1, i1, &o); W_DROP(o);
#elif VP_WARM == W_MATMUL
  a = vp_w(kInt16, 2, 2, 3, 0, 0, 2); b = vp_w(kInt16, 2, 3, 1, 0, 0, 2); c = vp_w(kInt16, 1, 3, 0, 0, 0, 2);
  aitisa_matmul(a, b, &o); W_DROP(o);
  aitisa_matmul(a, c, &o); W_DROP(o);
  aitisa_matmul(c, b, &o); W_DROP(o);
  aitisa_matmul(c, c, &o); W_DROP(o);
  aitisa_matmul(b, b, &o); W_DROP(o);
  W_DROP(a); W_DROP(b); W_DROP(c);
  a = vp_w(W_WIDE, 3, 2, 1, 2, 0, 2); b = vp_w(W_WIDE, 3, 1, 2, 1, 0, 2); c = vp_w(W_WIDE, 1, 2, 0, 0, 0, 2);
  aitisa_matmul(a, b, &o); W_DROP(o);
  aitisa_matmul(a, c, &o); W_DROP(o);
  aitisa_matmul(c, b, &o); W_DROP(o);
  W_DROP(a); W_DROP(b); W_DROP(c);
  a = vp_w(VP_K, 2, 1, 4, 0, 0, 2); b = vp_w(VP_K, 3, 3, 4, 1, 0, 2); c = vp_w(VP_K, 1, 4, 0, 0, 0, 2);
  aitisa_matmul(a, b, &o); W_DROP(o);
  aitisa_matmul(a, c, &o); W_DROP(o);
  aitisa_matmul(c, b, &o); W_DROP(o);
  aitisa_matmul(c, c, &o); W_DROP(o);
#elif VP_WARM == W_DOT
  a = vp_w(kInt16, 2, 2, 3, 0, 0, 2); b = vp_w(kInt16, 2, 3, 1, 0, 0, 2); c = vp_w(kInt16, 1, 3, 0, 0, 0, 2);
  aitisa_dot(a, b, &o); W_DROP(o);
  aitisa_dot(a, c, &o); W_DROP(o);
  aitisa_dot(c, c, &o); W_DROP(o);
  aitisa_dot(b, b, &o); W_DROP(o);
  W_DROP(a); W_DROP(b); W_DROP(c);
  a = vp_w(W_WIDE, 3, 2, 1, 2, 0, 2); b = vp_w(W_WIDE, 3, 1, 2, 1, 0, 2); c = vp_w(W_WIDE, 0, 0, 0, 0, 0, 3);
  aitisa_dot(a, b, &o); W_DROP(o);
  aitisa_dot(c, b, &o); W_DROP(o);
  aitisa_dot(a, c, &o); W_DROP(o);
  W_DROP(a); W_DROP(b); W_DROP(c);
  a = vp_w(VP_K, 2, 1, 4, 0, 0, 2); b = vp_w(VP_K, 2, 4, 1, 0, 0, 2); c = vp_w(VP_K, 1, 4, 0, 0, 0, 2);
  aitisa_dot(a, b, &o); W_DROP(o);
  aitisa_dot(a, c, &o); W_DROP(o);
  aitisa_dot(c, c, &o); W_DROP(o);
#elif VP_WARM == W_SLICE
  a = vp_w(kInt16, 3, 2, 3, 2, 0, 2); b = vp_w(W_WIDE, 1, 5, 0, 0, 0, 2);
  aitisa_slice(a, i0, i1, i1, &o); W_DROP(o);
  aitisa_slice(a, i0, i0, i1, &o); W_DROP(o);
  aitisa_slice(b, i1, i2, i2, &o); W_DROP(o);
  aitisa_slice(b, i1, i2, i0, &o); W_DROP(o);
  c = vp_w(VP_K, 3, 2, 3, 4, 0, 2);
  aitisa_slice(c, i0, i2, i1, &o); W_DROP(o);
  aitisa_slice(c, i1, i1, i2, &o); W_DROP(o);
#elif VP_WARM == W_SHAPE
  int64_t ax[1] = {1}, rs[2] = {3, 2};
  a = vp_w(kInt16, 3, 2, 1, 3, 0, 2); b = vp_w(W_WIDE, 1, 6, 0, 0, 0, 2);
  aitisa_squeeze(a, ax, 1, &o); W_DROP(o);
  aitisa_squeeze(a, NULL, 0, &o); W_DROP(o);
  aitisa_reshape(a, rs, 2, &o); W_DROP(o);
  aitisa_reshape(b, rs, 2, &o); W_DROP(o);
  rs[0] = 5;
  aitisa_reshape(b, rs, 2, &o); W_DROP(o);
  aitisa_duplicate(a, &o); W_DROP(o);
  aitisa_duplicate(b, &o); W_DROP(o);
  {
    int64_t d1[3] = {2, 1, 3}, d2[2] = {4, 1}, d3[3];
    aitisa_broadcast_array(d1, 3, d2, 2, d3, 3);
    aitisa_linidx_to_coords(a, 4, d3);
    (void)aitisa_coords_to_linidx(a, d3, 3);
    (void)aitisa_coords_to_offset(a, d3, 3);
    aitisa_offset_to_coords(a, 4, d3);
    (void)aitisa_get_stride(a, 0);
  }
#elif VP_WARM == W_DROPOUT
  a = vp_w(kInt16, 2, 2, 1, 0, 0, 2); b = vp_w(W_WIDE, 1, 3, 0, 0, 0, 2);
  aitisa_dropout(a, 0.5, &o); W_DROP(o);
  aitisa_dropout(b, 0.25, &o); W_DROP(o);
  aitisa_dropout(b, 2.0, &o); W_DROP(o);
  c = vp_w(VP_K, 1, 2, 0, 0, 0, 2);
  aitisa_dropout(c, 0.25, &o); W_DROP(o);
#endif
  (void)i0; (void)i1; (void)i2; (void)i3;
  W_DROP(a); W_DROP(b); W_DROP(c); W_DROP(o);
}
static void vp_harness_main(void);
void vp_harness(void) {
  vp_warm();
  vp_live = 0; vp_nalloc = 0; vp_fail_at = -1;
  vp_harness_main();
}
#define vp_harness static vp_harness_main
#endif
