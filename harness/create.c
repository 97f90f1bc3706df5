/* C01/C02/C03: creating, resolving and destroying tensors.  Symbolic: every
 * dimension, the element type, the device, the data length and all data bytes.
 *  VP_MODE 1 create without data      2 create over the caller's data, any length
 *          3 resolve and re-create    4 destroy */
#include "vp.h"
#ifndef VP_ND
#define VP_ND 2
#endif
#ifndef VP_DMASK   /* every dimension is 0..VP_DMASK */
#define VP_DMASK 3
#endif
static int64_t dims[5], keep[5];
static DataType ty;
static Device dev;
static DataType vp_pick(void) {
  int64_t k = vp_range(0, 9);
  switch (k) {
    case 0: return kInt8;
    case 1: return kUint8;
    case 2: return kInt16;
    case 3: return kUint16;
    case 4: return kInt32;
    case 5: return kUint32;
    case 6: return kInt64;
    case 7: return kUint64;
    case 8: return kFloat;
    default: return kDouble;
  }
}
static int64_t vp_fill_dims(void) {
  int64_t n = 1;
#ifdef VP_ZERO   /* one empty dimension, the other one as large as it likes */
  for (int i = 0; i < VP_ND; i++) dims[i] = keep[i] = i == VP_ZERO ? 0 : (int64_t)(vp_u64() >> 1);
  n = 0;
#else
  for (int i = 0; i < VP_ND; i++) { dims[i] = keep[i] = (int64_t)(vp_u64() & VP_DMASK); n *= dims[i]; }
#endif
#ifdef VP_TY
  ty = VP_TY;
#else
  ty = vp_pick();
#endif
  dev.type = vp_range(0, 1) ? DEVICE_CUDA : DEVICE_CPU;
  dev.id = (int)vp_u64();
  return n;
}
static void vp_check(Tensor t, int64_t n) {
  VP_ASSERT(t != NULL, "a tensor is produced");
  VP_ASSERT(aitisa_tensor_ndim(t) == VP_ND, "rank as requested");
  for (int i = 0; i < VP_ND; i++) VP_ASSERT(aitisa_tensor_dim(t, i) == keep[i], "dimensions as requested");
  VP_ASSERT(aitisa_tensor_size(t) == n, "element count is the product of the dimensions");
  VP_ASSERT(aitisa_tensor_data_type(t).code == ty.code && aitisa_tensor_data_type(t).size == ty.size, "type as requested");
  VP_ASSERT(aitisa_tensor_device(t).type == dev.type && aitisa_tensor_device(t).id == dev.id, "device as requested");
  VP_ASSERT(aitisa_tensor_layout_type(t) == LAYOUT_DENSE, "dense layout");
}
#define VP_MAXB (16 * 8)
void vp_harness(void) {
  long before = vp_live;
#if VP_MODE == 1
  int64_t n = vp_fill_dims();
  Tensor t = NULL;
  VP_ASSERT(aitisa_create(ty, dev, dims, VP_ND, NULL, 0, &t) == STATUS_SUCCESS, "create succeeds");
  for (int i = 0; i < VP_ND; i++) dims[i] = -7;   /* the caller may reuse its array */
  vp_check(t, n);
  /* every byte of every element is there and can be written and read back */
  char *p = aitisa_tensor_data(t);
  VP_ASSERT(p != NULL, "storage is provided");
  if (n > 0) {
    int64_t i = vp_range(0, VP_MAXB), j = vp_range(0, VP_MAXB);
    VP_ASSUME(i < n * ty.size && j < n * ty.size && i != j);
    p[i] = 11;
    p[j] = 22;
    VP_ASSERT(p[i] == 11 && p[j] == 22, "storage holds what is written");
  }
  vp_check(t, n);
#elif VP_MODE == 2
  int64_t n = vp_fill_dims();
  int64_t bytes = n * ty.size;
  char *buf = vp_malloc(VP_MAXB), copy[VP_MAXB];
  for (int i = 0; i < VP_MAXB; i += 8) {
    uint64_t v = vp_u64();
    memcpy(buf + i, &v, 8);
    memcpy(copy + i, &v, 8);
  }
  unsigned len = (unsigned)vp_u64();
  Tensor t = NULL;
  long held = vp_live;
  Status s = aitisa_create(ty, dev, dims, VP_ND, buf, len, &t);
  for (int i = 0; i < VP_ND; i++) dims[i] = -7;
  if ((int64_t)len == bytes) VP_ASSERT(s == STATUS_SUCCESS, "data of exactly the right length is accepted");
  if ((int64_t)len < bytes || (int64_t)len >= bytes + ty.size)
    VP_ASSERT(s == STATUS_INVALID_ARGUMENT, "data of a wrong length is refused");
  int64_t i = vp_range(0, VP_MAXB - 1);
  if (s == STATUS_SUCCESS) {
    vp_check(t, n);
    VP_ASSERT(aitisa_tensor_data(t) == buf, "the tensor takes over the caller's buffer");
    VP_ASSERT(buf[i] == copy[i], "the data is left as it was");
  } else {
    VP_ASSERT(t == NULL, "a refused call publishes no tensor");
    VP_ASSERT(vp_live == held, "a refused call keeps no memory");
    VP_ASSERT(buf[i] == copy[i], "the data still belongs to the caller");
    vp_free(buf);
    VP_ASSERT(vp_live == before, "a refused call keeps no memory");
  }
#elif VP_MODE == 3
  int64_t n = vp_fill_dims();
  char *buf = vp_malloc(VP_MAXB);
  for (int i = 0; i < VP_MAXB; i += 8) {
    uint64_t v = vp_u64();
    memcpy(buf + i, &v, 8);
  }
  Tensor t = NULL, u = NULL;
  VP_ASSERT(aitisa_create(ty, dev, dims, VP_ND, buf, (unsigned)(n * ty.size), &t) == STATUS_SUCCESS, "create succeeds");
  DataType rty; Device rdev; int64_t *rdims = NULL, rnd = -1; void *rdata = NULL; unsigned rlen = 99;
  long held = vp_live;
  VP_ASSERT(aitisa_resolve(t, &rty, &rdev, &rdims, &rnd, &rdata, &rlen) == STATUS_SUCCESS, "resolve succeeds");
  VP_ASSERT(rty.code == ty.code && rty.size == ty.size, "resolve returns the type");
  VP_ASSERT(rdev.type == dev.type && rdev.id == dev.id, "resolve returns the device");
  VP_ASSERT(rnd == VP_ND, "resolve returns the rank");
  for (int i = 0; i < VP_ND; i++) VP_ASSERT(rdims[i] == keep[i], "resolve returns the dimensions");
  VP_ASSERT(rdata == buf, "resolve returns the data");
  VP_ASSERT((int64_t)rlen == n * ty.size, "resolve returns the length in bytes");
  VP_ASSERT(vp_live == held, "resolve allocates nothing that stays");
  vp_check(t, n);
  /* what resolve returns describes an equal tensor */
  char *buf2 = vp_malloc(VP_MAXB);
  VP_ASSERT(aitisa_create(rty, rdev, rdims, rnd, buf2, rlen, &u) == STATUS_SUCCESS, "the parts are accepted by create");
  vp_check(u, n);
#elif VP_MODE == 4
  int64_t n = vp_fill_dims();
  Tensor t = NULL, u = NULL;
  char *buf = vp_malloc(VP_MAXB);
  VP_ASSERT(aitisa_create(ty, dev, dims, VP_ND, buf, (unsigned)(n * ty.size), &t) == STATUS_SUCCESS, "create succeeds");
  VP_ASSERT(aitisa_create(ty, dev, dims, VP_ND, NULL, 0, &u) == STATUS_SUCCESS, "create succeeds");
  long two = vp_live;
  VP_ASSERT(aitisa_destroy(&t) == STATUS_SUCCESS, "destroy succeeds");
  VP_ASSERT(t == NULL, "destroy clears the handle");
  VP_ASSERT(vp_live < two, "destroy returns memory");
  vp_check(u, n);                               /* other tensors are not touched */
  long one = vp_live;
  VP_ASSERT(aitisa_destroy(&t) == STATUS_SUCCESS && t == NULL, "destroying a cleared handle does nothing");
  VP_ASSERT(vp_live == one, "destroying a cleared handle does nothing");
  VP_ASSERT(aitisa_destroy(&u) == STATUS_SUCCESS && u == NULL, "destroy succeeds");
  VP_ASSERT(vp_live == before, "destroy returns every block, data included");
#endif
  VP_REACHED();
}
