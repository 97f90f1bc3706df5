/* Every public operator once (or once per internally different route), on small
 * tensors: setup() builds the inputs, vp_call() invokes the operator. */
#ifndef VP_OPS_H
#define VP_OPS_H
#include "src/basic/broadcast.h"
#include "src/basic/cast.h"
#include "src/basic/duplicate.h"
#include "src/basic/factories.h"
#include "src/basic/reshape.h"
#include "src/basic/slice.h"
#include "src/basic/squeeze.h"
#include "src/math/binary_op.h"
#include "src/math/dot.h"
#include "src/math/matmul.h"
#include "src/math/sqrt.h"
#include "src/nn/batch_norm.h"
#include "src/nn/conv.h"
#include "src/nn/dropout.h"
#include "src/nn/pooling.h"
#include "src/nn/relu.h"
#include "src/nn/sigmoid.h"
#include "src/nn/softmax.h"
#include "src/nn/tanh.h"

#ifndef VP_OP_ALLOC
#define VP_OP_ALLOC vp_malloc
#endif
#ifndef VP_BATCH
#define VP_BATCH 2
#endif
#define VP_MAXIN 5
#define VP_MAXEL 16
static Tensor vp_in[VP_MAXIN];
static int vp_nin = 0;
static VP_T vp_val[VP_MAXIN][VP_MAXEL];
static int64_t vp_dim[VP_MAXIN][5];
static int64_t vp_rank[VP_MAXIN];

/* VP_CONCRETE: the elements do not matter to the question (allocation failures) */
static inline VP_T vp_op_elem(int i) {
#ifdef VP_CONCRETE
  return (VP_T)(i + 1);
#else
  return vp_elem();
#endif
}
static inline void vp_input(int64_t ndim, int64_t d0, int64_t d1, int64_t d2, int64_t d3, int64_t d4) {
  int64_t d[5] = {d0, d1, d2, d3, d4};
  int k = vp_nin++;
  int64_t n = vp_prod(d, ndim);
  vp_rank[k] = ndim;
  for (int i = 0; i < ndim; i++) vp_dim[k][i] = d[i];
  VP_T *p = VP_OP_ALLOC(sizeof(VP_T) * n);
  for (int64_t i = 0; i < n; i++) {
    VP_T v = vp_op_elem((int)i);
    p[i] = v;
    vp_val[k][i] = v;
  }
  vp_in[k] = NULL;
  Status s = aitisa_create(VP_K, vp_cpu, d, ndim, p, (unsigned)(sizeof(VP_T) * n), &vp_in[k]);
  VP_ASSERT(s == STATUS_SUCCESS, "creating a well-formed tensor succeeds");
}
/* give input k fixed values (where the operator's success depends on them) */
static inline void vp_fix(int k, VP_T v) {
  VP_T *p = aitisa_tensor_data(vp_in[k]);
  int64_t n = vp_prod(vp_dim[k], vp_rank[k]);
  for (int64_t i = 0; i < n; i++) { p[i] = v; vp_val[k][i] = v; }
}
static int vp_i1[3] = {1, 1, 1}, vp_i0[3] = {0, 0, 0}, vp_i2[3] = {2, 2, 2};
static int vp_sb[2] = {0, 1}, vp_ss[2] = {2, 2}, vp_st[2] = {1, 1};
static int64_t vp_ax[1] = {0};
static int64_t vp_rs[1] = {4};
static int64_t vp_fd[2] = {2, 2};

#if VP_FLT
#define VP_CASTK kInt32
#else
#define VP_CASTK kFloat
#endif

static inline void vp_setup(void) {
  vp_nin = 0;
#if VP_OPID == 1 || VP_OPID == 2 || VP_OPID == 3 || VP_OPID == 4
  vp_input(2, 2, 2, 0, 0, 0); vp_input(2, 2, 2, 0, 0, 0);
#if VP_OPID == 4 && !VP_FLT
  vp_fix(1, 3);
#endif
#elif VP_OPID == 5 || VP_OPID == 6 || VP_OPID == 8 || VP_OPID == 11 || VP_OPID == 12 || VP_OPID == 13 || VP_OPID == 14
  vp_input(2, 2, 2, 0, 0, 0);
#if VP_OPID == 5
#if VP_FLT
  vp_fix(0, (VP_T)1.5);
#endif
#endif
#elif VP_OPID == 10
  vp_input(2, 2, 2, 0, 0, 0); vp_fix(0, 2);
#elif VP_OPID == 7
  vp_input(2, 2, 3, 0, 0, 0);
#elif VP_OPID == 9
  vp_input(2, 1, 3, 0, 0, 0);
#elif VP_OPID == 15
  vp_input(2, 2, 2, 0, 0, 0);
#elif VP_OPID == 16
  vp_input(1, 3, 0, 0, 0, 0);
#elif VP_OPID == 20
  vp_input(1, 2, 0, 0, 0, 0); vp_input(1, 2, 0, 0, 0, 0);
#elif VP_OPID == 21
  vp_input(2, 2, 2, 0, 0, 0); vp_input(1, 2, 0, 0, 0, 0);
#elif VP_OPID == 22
  vp_input(1, 2, 0, 0, 0, 0); vp_input(2, 2, 2, 0, 0, 0);
#elif VP_OPID == 23
  vp_input(2, 2, 1, 0, 0, 0); vp_input(2, 1, 2, 0, 0, 0);
#elif VP_OPID == 24
  vp_input(3, 2, 1, 2, 0, 0); vp_input(3, 1, 2, 1, 0, 0);
#elif VP_OPID == 25
  vp_input(3, 2, 1, 2, 0, 0); vp_input(1, 2, 0, 0, 0, 0);
#elif VP_OPID == 26
  vp_input(1, 2, 0, 0, 0, 0); vp_input(3, 2, 2, 1, 0, 0);
#elif VP_OPID == 30
  vp_input(1, 2, 0, 0, 0, 0); vp_input(1, 2, 0, 0, 0, 0);
#elif VP_OPID == 31
  vp_input(2, 2, 1, 0, 0, 0); vp_input(2, 1, 2, 0, 0, 0);
#elif VP_OPID == 32
  vp_input(0, 0, 0, 0, 0, 0); vp_input(1, 2, 0, 0, 0, 0);
#elif VP_OPID == 33
  vp_input(1, 2, 0, 0, 0, 0); vp_input(0, 0, 0, 0, 0, 0);
#elif VP_OPID == 34
  vp_input(2, 2, 2, 0, 0, 0); vp_input(1, 2, 0, 0, 0, 0);
#elif VP_OPID == 35
  vp_input(3, 1, 2, 2, 0, 0); vp_input(3, 1, 2, 1, 0, 0);
#elif VP_OPID == 40
  vp_input(2, VP_BATCH, 2, 0, 0, 0);
  for (int i = 0; i < 4; i++) vp_input(1, 2, 0, 0, 0, 0);
  vp_fix(4, 3);
#elif VP_OPID == 41
  vp_input(3, 1, 2, VP_BATCH, 0, 0);
  for (int i = 0; i < 4; i++) vp_input(1, 2, 0, 0, 0, 0);
  vp_fix(4, 3);
#elif VP_OPID == 50
  vp_input(4, 1, 1, 2, 3, 0); vp_input(4, 2, 1, 1, 2, 0);
#elif VP_OPID == 51
  vp_input(5, 1, 1, 1, 2, 2); vp_input(5, 1, 1, 1, 1, 2);
#elif VP_OPID == 52
  vp_input(3, 1, 2, 2, 0, 0); vp_input(3, 1, 2, 2, 0, 0);
#elif VP_OPID == 53 || VP_OPID == 54
  vp_input(4, 1, 1, 2, 3, 0);
#elif VP_OPID == 55 || VP_OPID == 56
  vp_input(3, 1, 2, 2, 0, 0);
#endif
}

static inline Status vp_call(Tensor *o) {
  Tensor *x = vp_in;
#if VP_OPID == 1
  return aitisa_add(x[0], x[1], o);
#elif VP_OPID == 2
  return aitisa_sub(x[0], x[1], o);
#elif VP_OPID == 3
  return aitisa_mul(x[0], x[1], o);
#elif VP_OPID == 4
  return aitisa_div(x[0], x[1], o);
#elif VP_OPID == 5
  return aitisa_cast(x[0], VP_CASTK, o);
#elif VP_OPID == 6
  return aitisa_duplicate(x[0], o);
#elif VP_OPID == 7
  return aitisa_slice(x[0], vp_sb, vp_ss, vp_st, o);
#elif VP_OPID == 8
  return aitisa_reshape(x[0], vp_rs, 1, o);
#elif VP_OPID == 9
  return aitisa_squeeze(x[0], vp_ax, 1, o);
#elif VP_OPID == 10
  return aitisa_sqrt(x[0], o);
#elif VP_OPID == 11
  return aitisa_relu(x[0], o);
#elif VP_OPID == 12
  return aitisa_sigmoid(x[0], o);
#elif VP_OPID == 13
  return aitisa_tanh(x[0], o);
#elif VP_OPID == 14
  return aitisa_dropout(x[0], 0.5, o);
#elif VP_OPID == 15
  return aitisa_softmax(x[0], 1, o);
#elif VP_OPID == 16
  return aitisa_softmax(x[0], -1, o);
#elif VP_OPID == 17
  return aitisa_full(VP_K, vp_cpu, vp_fd, 2, 2.5, o);
#elif VP_OPID == 18
  return aitisa_create(VP_K, vp_cpu, vp_fd, 2, NULL, 0, o);
#elif VP_OPID >= 20 && VP_OPID <= 26
  return aitisa_matmul(x[0], x[1], o);
#elif VP_OPID >= 30 && VP_OPID <= 35
  return aitisa_dot(x[0], x[1], o);
#elif VP_OPID == 40 || VP_OPID == 41
  return aitisa_batch_norm(x[0], 1, x[1], x[2], x[3], x[4], 1.0, o);
#elif VP_OPID == 50
  return aitisa_conv2d(x[0], x[1], vp_i1, 2, vp_i0, 2, vp_i1, 2, 1, o);
#elif VP_OPID == 51
  return aitisa_conv3d(x[0], x[1], vp_i1, 3, vp_i0, 3, vp_i1, 3, 1, o);
#elif VP_OPID == 52
  return aitisa_conv(x[0], x[1], vp_i1, vp_i0, vp_i1, 1, o);
#elif VP_OPID == 53
  return aitisa_pooling(x[0], "max", vp_i2, vp_i1, vp_i0, vp_i1, o);
#elif VP_OPID == 54
  return aitisa_pooling(x[0], "avg", vp_i2, vp_i1, vp_i0, vp_i1, o);
#elif VP_OPID == 55
  return aitisa_pooling(x[0], "max", vp_i2, vp_i1, vp_i1, vp_i1, o);
#elif VP_OPID == 56
  return aitisa_pooling(x[0], "avg", vp_i2, vp_i1, vp_i1, vp_i1, o);
#endif
}

/* metadata and elements of every input are exactly what setup() gave it */
static inline void vp_inputs_intact(const char *unused) {
  (void)unused;
  for (int k = 0; k < vp_nin; k++) {
    Tensor t = vp_in[k];
    VP_ASSERT(aitisa_tensor_ndim(t) == vp_rank[k], "the input keeps its rank");
    for (int i = 0; i < vp_rank[k]; i++)
      VP_ASSERT(aitisa_tensor_dim(t, i) == vp_dim[k][i], "the input keeps its dimensions");
    VP_ASSERT(aitisa_tensor_data_type(t).code == VP_K.code && aitisa_tensor_data_type(t).size == VP_K.size, "the input keeps its type");
    int64_t n = vp_prod(vp_dim[k], vp_rank[k]);
    VP_ASSERT(aitisa_tensor_size(t) == n, "the input keeps its element count");
    VP_ASSERT(aitisa_tensor_device(t).type == DEVICE_CPU, "the input keeps its device");
    VP_T *p = aitisa_tensor_data(t);
    for (int64_t i = 0; i < n; i++)
      VP_ASSERT(VP_SAME(p[i], vp_val[k][i]), "the input keeps its elements");
  }
}
static inline void vp_destroy_inputs(void) {
  for (int k = 0; k < vp_nin; k++) {
    VP_ASSERT(aitisa_destroy(&vp_in[k]) == STATUS_SUCCESS, "destroying an input succeeds");
    VP_ASSERT(vp_in[k] == NULL, "destroy clears the handle");
  }
}
#endif
