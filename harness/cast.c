/* C10: cast from VP_T to every element type.  Symbolic: every element. */
#include "vp.h"
#include "shape.h"
#include "src/basic/cast.h"
/* v survives a C conversion to TY without undefined behaviour */
#define FITS_I(TY, LO, HI) 
static int fits(double v, double lo, double hi) { return v > lo && v < hi; }
#if VP_FLT
#define ASSUME_FITS(lo, hi) for (int i = 0; i < VP_N; i++) VP_ASSUME(fits((double)a[i], lo, hi))
#else
#define ASSUME_FITS(lo, hi) ((void)0)
#endif
#define ONE(TY, KT, lo, hi)                                                        \
  {                                                                                \
    Tensor o = NULL;                                                               \
    VP_T a[VP_N1];                                                                 \
    Tensor x = vp_tensor_of(VP_K, vp_d, VP_ND, a);                                 \
    ASSUME_FITS(lo, hi);                                                           \
    Status s = aitisa_cast(x, KT, &o);                                             \
    VP_ASSERT(s == STATUS_SUCCESS, "cast succeeds");                               \
    vp_check_shape(o, KT, vp_d, VP_ND);                                            \
    TY *z = aitisa_tensor_data(o);                                                 \
    for (int i = 0; i < VP_N; i++) {                                               \
      TY r = (TY)a[i];                                                             \
      VP_ASSERT(z[i] == r || (z[i] != z[i] && r != r), "element converted by value to " #TY); \
    }                                                                              \
  }
void vp_harness(void) {
#if VP_GROUP == 0
  ONE(int8_t, kInt8, -129.0, 128.0)
  ONE(uint8_t, kUint8, -1.0, 256.0)
  ONE(int16_t, kInt16, -32769.0, 32768.0)
  ONE(uint16_t, kUint16, -1.0, 65536.0)
  ONE(float, kFloat, -1e30, 1e30)
#else
  ONE(int32_t, kInt32, -2147483649.0, 2147483648.0)
  ONE(uint32_t, kUint32, -1.0, 4294967296.0)
  ONE(int64_t, kInt64, -9223372036854775808.0, 9223372036854775808.0)
  ONE(uint64_t, kUint64, -1.0, 18446744073709551616.0)
  ONE(double, kDouble, -1e300, 1e300)
#endif
  VP_REACHED();
}
