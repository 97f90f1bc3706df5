/* C08: what a two-operand operator answers when its operands do not fit together.
 * Symbolic: both element types, both devices, every dimension of both operands
 * (or given ones: VP_DA, VP_DB). */
#include "vp.h"
#include "src/math/binary_op.h"
#include "src/math/matmul.h"
#ifndef VP_DMASK
#define VP_DMASK 3
#endif
static DataType vp_pick(void) {
#ifdef VP_ONETYPE
  return VP_ONETYPE;
#else
  switch (vp_range(0, 9)) {
    case 0: return kInt8;
    case 1: return kUint8;
    case 2: return kInt16;
    case 3: return kUint16;
    case 4: return kInt32;
    case 5: return kUint32;
    case 6: return kInt64;
    case 7: return kUint64;
    case 8: return kFloat;
    default: return kDouble;
  }
#endif
}
static int64_t da[6], db[6];
void vp_harness(void) {
  DataType ka = vp_pick(), kb = vp_pick();
  Device va, vb;
  va.id = vb.id = 0;
  va.type = (vp_u64() & 1) ? DEVICE_CUDA : DEVICE_CPU;
  vb.type = (vp_u64() & 1) ? DEVICE_CUDA : DEVICE_CPU;
#ifdef VP_DA
  static const int64_t fa[] = VP_DA, fb[] = VP_DB;
  for (int i = 0; i < VP_NA; i++) da[i] = fa[i];
  for (int i = 0; i < VP_NB; i++) db[i] = fb[i];
#else
  for (int i = 0; i < VP_NA; i++) da[i] = (int64_t)(vp_u64() & VP_DMASK);
  for (int i = 0; i < VP_NB; i++) db[i] = (int64_t)(vp_u64() & VP_DMASK);
#endif
  int dev = va.type != DEVICE_CPU || vb.type != DEVICE_CPU;
  int type = ka.code != kb.code;
  int scalar = 0, dims = 0;
#if VP_MATMUL
  scalar = VP_NA == 0 || VP_NB == 0;
#if VP_NA > 0 && VP_NB > 0
  /* contraction */
  int64_t ca = da[VP_NA - 1], cb = db[VP_NB >= 2 ? VP_NB - 2 : 0];
  if (ca != cb) dims = 1;
  /* batch dimensions, aligned from the right */
  for (int i = 3; i <= VP_NA && i <= VP_NB; i++) {
    int64_t p = da[VP_NA - i], q = db[VP_NB - i];
    if (p != q && p != 1 && q != 1) dims = 1;
  }
#endif
#else
  if (VP_NA != VP_NB) dims = 1;
  else for (int i = 0; i < VP_NA; i++) if (da[i] != db[i]) dims = 1;
#endif
  VP_ASSUME(dev || type || scalar || dims);
  Tensor a = NULL, b = NULL, o = NULL;
  VP_ASSERT(aitisa_create(ka, va, da, VP_NA, NULL, 0, &a) == STATUS_SUCCESS, "create succeeds");
  VP_ASSERT(aitisa_create(kb, vb, db, VP_NB, NULL, 0, &b) == STATUS_SUCCESS, "create succeeds");
  long held = vp_live;
  Status s = VP_FN(a, b, &o);
  VP_ASSERT(s != STATUS_SUCCESS, "operands that do not fit are refused");
#if VP_MATMUL
  VP_ASSERT((dev && s == STATUS_NOT_SUPPORTED) || (type && (s == STATUS_TYPE_MISMATCH || s == STATUS_NOT_SUPPORTED)) ||
            (scalar && s == STATUS_INVALID_ARGUMENT) || (dims && s == STATUS_DIMENSIONS_MISMATCH), "the documented status is returned");
#else
  VP_ASSERT((dev && s == STATUS_NOT_SUPPORTED) || (type && s == STATUS_TYPE_MISMATCH) || (dims && s == STATUS_INVALID_ARGUMENT), "the documented status is returned");
#endif
  VP_ASSERT(o == NULL && vp_live == held, "a refused call leaves nothing behind");
  VP_REACHED();
}
