/* C05 (and C31): calls with arguments an operator cannot serve.
 *  VP_IN     statements building the inputs: I(type, dims...) or ON(device, type, dims...)
 *  VP_PRE    declarations of symbolic parameters, P(lo, hi)
 *  VP_CALL   the call, returning Status, with inputs x[0..] and output &o
 *  VP_WANT   condition on s that must hold (default: refused)
 *  VP_BADIF  condition under which the call must be refused (default: always)
 * Symbolic: the parameters.  The elements are concrete: nothing here depends on them. */
#include "vp.h"
#include <limits.h>
#include "src/basic/cast.h"
#include "src/basic/duplicate.h"
#include "src/basic/factories.h"
#include "src/basic/reshape.h"
#include "src/basic/slice.h"
#include "src/basic/squeeze.h"
#include "src/math/binary_op.h"
#include "src/math/dot.h"
#include "src/math/matmul.h"
#include "src/math/sqrt.h"
#include "src/nn/batch_norm.h"
#include "src/nn/conv.h"
#include "src/nn/dropout.h"
#include "src/nn/pooling.h"
#include "src/nn/relu.h"
#include "src/nn/sigmoid.h"
#include "src/nn/softmax.h"
#include "src/nn/tanh.h"

#define MAXIN 5
static Tensor x[MAXIN];
static int nin;
static int64_t rank_[MAXIN], dims_[MAXIN][7], size_[MAXIN];
static DataType type_[MAXIN];
static Device dev_[MAXIN];
/* element values: 1, 2, 3 ... unless VP_ELEM says otherwise */
#ifndef VP_ELEM
#define VP_ELEM(i, j) ((j) + 1)
#endif
#define EACH_TYPE(k, X) switch ((k).code) { \
  case TYPE_INT8: X(int8_t) break; case TYPE_UINT8: X(uint8_t) break; \
  case TYPE_INT16: X(int16_t) break; case TYPE_UINT16: X(uint16_t) break; \
  case TYPE_INT32: X(int32_t) break; case TYPE_UINT32: X(uint32_t) break; \
  case TYPE_INT64: X(int64_t) break; case TYPE_UINT64: X(uint64_t) break; \
  case TYPE_FLOAT: X(float) break; default: X(double) }
static void vp_in(DeviceType dt, DataType k, const int64_t *d, int64_t nd) {
  int i = nin++;
  int64_t n = 1;
  for (int j = 0; j < nd; j++) { n *= d[j]; dims_[i][j] = d[j]; }
  rank_[i] = nd;
  type_[i] = k;
  dev_[i].type = dt;
  dev_[i].id = 0;
  size_[i] = n;
  void *p = vp_malloc(n * k.size);
#define PUT(T) for (int64_t j = 0; j < n; j++) ((T *)p)[j] = (T)VP_ELEM(i, j);
  EACH_TYPE(k, PUT)
  x[i] = NULL;
  VP_ASSERT(aitisa_create(k, dev_[i], (int64_t *)d, nd, p, (unsigned)(n * k.size), &x[i]) == STATUS_SUCCESS, "creating a well-formed tensor succeeds");
}
#define ON(dev, k, ...) do { int64_t d_[] = {0, ##__VA_ARGS__}; vp_in(dev, k, d_ + 1, (int64_t)(sizeof d_ / sizeof *d_) - 1); } while (0)
#define I(k, ...) ON(DEVICE_CPU, k, ##__VA_ARGS__)
#define P(lo, hi) ((int)vp_range(lo, hi))
#define L(lo, hi) vp_range(lo, hi)
static double vp_dbl(void) { union { double d; uint64_t u; } v; v.u = vp_u64(); return v.d; }
#define D() vp_dbl()

static void vp_intact(void) {
  for (int i = 0; i < nin; i++) {
    VP_ASSERT(aitisa_tensor_ndim(x[i]) == rank_[i], "the input keeps its rank");
    for (int j = 0; j < rank_[i]; j++) VP_ASSERT(aitisa_tensor_dim(x[i], j) == dims_[i][j], "the input keeps its dimensions");
    VP_ASSERT(aitisa_tensor_data_type(x[i]).code == type_[i].code, "the input keeps its type");
    VP_ASSERT(aitisa_tensor_device(x[i]).type == dev_[i].type, "the input keeps its device");
    VP_ASSERT(aitisa_tensor_size(x[i]) == size_[i], "the input keeps its element count");
    void *p = aitisa_tensor_data(x[i]);
#define SAME(T) for (int64_t j = 0; j < size_[i]; j++) VP_ASSERT(((T *)p)[j] == (T)VP_ELEM(i, j), "the input keeps its elements");
    EACH_TYPE(type_[i], SAME)
  }
}
#ifndef VP_PRE
#define VP_PRE
#endif
#ifndef VP_BADIF
#define VP_BADIF 1
#endif
#ifndef VP_WANT
#define VP_WANT (s != STATUS_SUCCESS)
#endif
void vp_harness(void) {
  long before = vp_live;
  VP_IN;
  VP_PRE;
  long held = vp_live;
  Tensor o = NULL;
  Status s = VP_CALL;
  if (VP_BADIF) VP_ASSERT(VP_WANT, "an impossible request is refused");
  vp_intact();
  if (o != NULL) VP_ASSERT(aitisa_destroy(&o) == STATUS_SUCCESS && o == NULL, "a published output can be destroyed");
  VP_ASSERT(vp_live == held, "a refused call leaves nothing allocated");
  for (int i = 0; i < nin; i++) VP_ASSERT(aitisa_destroy(&x[i]) == STATUS_SUCCESS, "the inputs can still be destroyed");
  VP_ASSERT(vp_live == before, "everything is returned");
  VP_REACHED();
}
