/* C29: element types and typed access.  Symbolic: all bytes, the element index. */
#include "vp.h"
#include "src/math/binary_op.h"
#define NE 3
static const TypeCode want_code = VP_CODE;
void vp_harness(void) {
  DataType k = VP_K;
  VP_ASSERT(k.code == want_code, "type code of the constant");
  VP_ASSERT(k.size == sizeof(VP_T), "element size of the constant");
  union { VP_T v[NE + 2]; unsigned char b[(NE + 2) * sizeof(VP_T)]; } a, keep;
  for (int i = 0; i < NE + 2; i++) a.v[i] = vp_elem();
  keep = a;
  struct { unsigned char lo[8]; VP_T v; unsigned char hi[8]; } x;
  memset(&x, 0x33, sizeof x);
#if VP_MODE == 1
  aitisa_get_typed_value_func(k)(&a.v[1], &x.v);
  VP_ASSERT(VP_SAME(x.v, keep.v[1]), "get reads the value");
  for (int i = 0; i < 8; i++) VP_ASSERT(x.lo[i] == 0x33 && x.hi[i] == 0x33, "get writes one element only");
  int64_t i = vp_range(0, NE - 1);
  aitisa_get_typed_array_value_func(k)(&a.v[1], i, &x.v);
  VP_ASSERT(VP_SAME(x.v, keep.v[1 + i]), "array get reads element i");
  for (int j = 0; j < 8; j++) VP_ASSERT(x.lo[j] == 0x33 && x.hi[j] == 0x33, "get writes one element only");
  for (unsigned j = 0; j < sizeof a.b; j++) VP_ASSERT(a.b[j] == keep.b[j], "get leaves the source alone");
#elif VP_MODE == 2
  VP_T v[NE + 2], old[NE + 2];
  for (int j = 0; j < NE + 2; j++) v[j] = old[j] = a.v[j];
  x.v = vp_elem();
  aitisa_set_typed_value_func(k)(&v[1], &x.v);
  VP_ASSERT(VP_SAME(v[1], x.v), "set stores the value");
  for (int j = 0; j < NE + 2; j++) if (j != 1) VP_ASSERT(VP_SAME(v[j], old[j]), "set writes one element only");
  old[1] = v[1];
  int64_t i = vp_range(0, NE - 1);
  VP_T y = vp_elem();
  aitisa_set_typed_array_value_func(k)(&v[1], i, &y);
  for (int j = 0; j < NE + 2; j++) VP_ASSERT(j == 1 + i ? VP_SAME(v[j], y) : VP_SAME(v[j], old[j]), "array set stores element i only");
#elif VP_MODE == 3
  union { double d; uint64_t u; } v;
  v.u = vp_u64();
#if VP_FLT
#define LO -1e30
#define HI 1e30
#else
  const double LO = (VP_T)-1 > 0 ? -0.5 : (sizeof(VP_T) == 8 ? -9.2e18 : -(double)(1ull << (8 * (sizeof(VP_T) == 8 ? 4 : sizeof(VP_T)) - 1)));
  const double HI = (VP_T)-1 > 0 ? (sizeof(VP_T) == 8 ? 1.8e19 : (double)((1ull << (8 * (sizeof(VP_T) == 8 ? 4 : sizeof(VP_T)))) - 1))
                                 : (sizeof(VP_T) == 8 ? 9.2e18 : (double)((1ull << (8 * (sizeof(VP_T) == 8 ? 4 : sizeof(VP_T)) - 1)) - 1));
#endif
  VP_ASSUME(v.d >= LO && v.d <= HI);
  double arg = v.d;
  aitisa_castto_typed_value_func(k)(&a.v[1], &arg);
  VP_ASSERT(VP_SAME(a.v[1], (VP_T)v.d), "cast stores the converted value");
  VP_ASSERT(arg == v.d, "cast leaves its source alone");
  for (int j = 0; j < NE + 2; j++) if (j != 1) VP_ASSERT(VP_SAME(a.v[j], keep.v[j]), "cast writes one element only");
#elif VP_MODE == 4
  /* set_item on a tensor */
  int64_t d[1] = {NE};
  VP_T *p = vp_malloc(sizeof(VP_T) * NE);
  for (int j = 0; j < NE; j++) p[j] = a.v[j];
  Tensor t = NULL;
  VP_ASSERT(aitisa_create(k, vp_cpu, d, 1, p, sizeof(VP_T) * NE, &t) == STATUS_SUCCESS, "create succeeds");
  int64_t i = vp_range(0, NE - 1);
  x.v = vp_elem();
  aitisa_tensor_set_item(t, i, &x.v);
  for (int j = 0; j < NE; j++) VP_ASSERT(VP_SAME(((VP_T *)aitisa_tensor_data(t))[j], j == i ? x.v : keep.v[j]), "set_item stores item i only");
#elif VP_MODE == 5
  VP_T r = 0, u = a.v[0], w = a.v[1];
  aitisa_binary_op_func(k)(&u, &w, OP_ADD, &r);
  VP_ASSERT(VP_SAME(r, (VP_T)(a.v[0] + a.v[1])), "addition of this type");
  aitisa_binary_op_func(k)(&u, &w, OP_SUB, &r);
  VP_ASSERT(VP_SAME(r, (VP_T)(a.v[0] - a.v[1])), "subtraction of this type");
  VP_ASSERT(VP_SAME(u, a.v[0]) && VP_SAME(w, a.v[1]), "operands left alone");
#endif
  VP_REACHED();
}
