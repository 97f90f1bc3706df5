/* Lifecycle properties of every operator, one mode per property.
 *  VP_MODE 1  C04  after destroying the inputs and the output nothing is left allocated
 *  VP_MODE 2  C07  the call leaves its inputs alone and the output shares no storage with them
 *  VP_MODE 3  C06  one allocation request, chosen by the solver, fails
 *  VP_MODE 4  C30  two calls on equal inputs agree whatever uninitialised memory holds
 *  VP_MODE 5  C28  with an allocator installed, tensors live in its memory only
 *  VP_MODE 6  C32  a call on other inputs in between does not change the result
 *  VP_MODE 7  C32  (reachability) a later call answers for its own inputs */
#include "vp.h"
#if VP_MODE == 5
/* Blocks of the installed allocator start 16 bytes into the raw block, so handing one
 * to plain free(), or a plain block to inst_free(), is an invalid release that the
 * encoding (and ASan) reports. */
static long inst_live = 0, inst_n = 0;
static void *inst_alloc(size_t n) {
  char *p = malloc(n + 16);
  if (!p) return NULL;
  inst_live++;
  inst_n++;
  return p + 16;
}
static void inst_free(void *p) {
  if (!p) return;
  inst_live--;
  free((char *)p - 16);
}
#define VP_OP_ALLOC inst_alloc
#endif
#include "ops.h"

static VP_T vp_copy[VP_MAXEL];

#if VP_OPID == 5
#if VP_FLT
#define VP_OUT_T int32_t
#else
#define VP_OUT_T float
#endif
#else
#define VP_OUT_T VP_T
#endif
static inline void vp_same(Tensor o, Tensor q) {
  VP_ASSERT(aitisa_tensor_size(o) == aitisa_tensor_size(q) && aitisa_tensor_ndim(o) == aitisa_tensor_ndim(q), "equal inputs give equal shapes");
  for (int64_t i = 0; i < aitisa_tensor_ndim(o); i++)
    VP_ASSERT(aitisa_tensor_dim(o, i) == aitisa_tensor_dim(q, i), "equal inputs give equal shapes");
  VP_ASSERT(aitisa_tensor_data_type(o).code == aitisa_tensor_data_type(q).code, "equal inputs give equal types");
  VP_OUT_T *a = aitisa_tensor_data(o), *b = aitisa_tensor_data(q);
  for (int64_t i = 0; i < aitisa_tensor_size(o); i++)
    VP_ASSERT(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]), "equal inputs give equal elements");
}
/* a second set of inputs of the same shapes, concrete values */
static inline void vp_other_inputs(void) {
  for (int k = 0; k < vp_nin; k++) {
    int64_t n = vp_prod(vp_dim[k], vp_rank[k]);
    VP_T *p = VP_OP_ALLOC(sizeof(VP_T) * n);
    for (int64_t i = 0; i < n; i++) p[i] = (VP_T)(i + k + 5);
    vp_in[k] = NULL;
    VP_ASSERT(aitisa_create(VP_K, vp_cpu, vp_dim[k], vp_rank[k], p, (unsigned)(sizeof(VP_T) * n), &vp_in[k]) == STATUS_SUCCESS, "creating a well-formed tensor succeeds");
  }
}

#if VP_MODE == 3
static void vp_fail_run(long kk) {
  vp_live = vp_nalloc = 0;      /* constants again after the previous k was merged */
  vp_fail_at = -1;
  vp_setup();
  long before = vp_live;
  Tensor o = NULL;
  vp_did_fail = 0;
  vp_fail_at = vp_nalloc + kk;
  Status s = vp_call(&o);
  vp_fail_at = -1;
  if (vp_did_fail) {
    VP_ASSERT(s != STATUS_SUCCESS, "a call that could not get memory does not report success");
    VP_ASSERT(s == STATUS_ALLOC_FAILED, "the failed allocation is what is reported");
    vp_inputs_intact("");
    if (o != NULL) VP_ASSERT(aitisa_destroy(&o) == STATUS_SUCCESS, "a published output can be destroyed");
    VP_ASSERT(vp_live == before, "nothing stays allocated after a failed call");
  } else {
    VP_ASSERT(s == STATUS_SUCCESS && o != NULL, "without a failure the call succeeds");
    VP_ASSERT(aitisa_destroy(&o) == STATUS_SUCCESS, "destroying the output succeeds");
    VP_ASSERT(vp_live == before, "nothing stays allocated");
  }
  vp_destroy_inputs();
}
#endif

void vp_harness(void) {
#if VP_MODE == 1
  long before = vp_live;
  vp_setup();
  Tensor o = NULL;
  VP_ASSERT(vp_call(&o) == STATUS_SUCCESS, "a valid call succeeds");
  VP_ASSERT(o != NULL, "output tensor is produced");
  long held = vp_live;
#ifdef VP_OUT_FIRST
  VP_ASSERT(aitisa_destroy(&o) == STATUS_SUCCESS && o == NULL, "destroying the output succeeds");
  VP_ASSERT(vp_live < held, "destroying the output returns memory");
  vp_destroy_inputs();
#else
  vp_destroy_inputs();
  VP_ASSERT(aitisa_destroy(&o) == STATUS_SUCCESS && o == NULL, "destroying the output succeeds");
#endif
  VP_ASSERT(vp_live == before, "every allocated block was returned exactly once");
#elif VP_MODE == 2
  vp_setup();
  Tensor o = NULL, keep[VP_MAXIN];
  void *data[VP_MAXIN];
  for (int k = 0; k < vp_nin; k++) { keep[k] = vp_in[k]; data[k] = aitisa_tensor_data(vp_in[k]); }
  VP_ASSERT(vp_call(&o) == STATUS_SUCCESS, "a valid call succeeds");
  VP_ASSERT(o != NULL, "output tensor is produced");
  for (int k = 0; k < vp_nin; k++) {
    VP_ASSERT(vp_in[k] == keep[k] && aitisa_tensor_data(vp_in[k]) == data[k], "the input keeps its storage");
    VP_ASSERT(o != vp_in[k] && aitisa_tensor_data(o) != aitisa_tensor_data(vp_in[k]) &&
              aitisa_tensor_storage(o) != aitisa_tensor_storage(vp_in[k]), "the output has storage of its own");
    if (aitisa_tensor_ndim(o) && aitisa_tensor_ndim(vp_in[k]))
      VP_ASSERT(aitisa_tensor_dims(o) != aitisa_tensor_dims(vp_in[k]), "the output has a shape of its own");
  }
  vp_inputs_intact("");
  /* overwriting the output does not reach the inputs; dropping the inputs keeps the output */
  int64_t nb = aitisa_tensor_size(o) * aitisa_tensor_data_type(o).size;
  char *b = aitisa_tensor_data(o);
  for (int64_t i = 0; i < nb; i++) b[i] = (char)(i + 17);
  vp_inputs_intact("");
  vp_destroy_inputs();
  int64_t n = 1;
  for (int64_t i = 0; i < aitisa_tensor_ndim(o); i++) n *= aitisa_tensor_dim(o, i);
  VP_ASSERT(n == aitisa_tensor_size(o), "the output outlives its inputs");
  for (int64_t i = 0; i < nb; i++) VP_ASSERT(b[i] == (char)(i + 17), "the output outlives its inputs");
#elif VP_MODE == 3
  /* k: which request fails, counted from the operator's first one.  Past the last
   * request nothing fails.  The split keeps the allocator state concrete per k. */
  int64_t k = vp_range(VP_K0, VP_K1);
  for (int64_t kk = VP_K0; kk <= VP_K1; kk++)
    if (k == kk) vp_fail_run(kk);
#elif VP_MODE == 5
  RawAlloc def_alloc = aitisa_default_cpu_allocator()->raw_alloc;
  RawDealloc def_free = aitisa_default_cpu_allocator()->raw_dealloc;
  aitisa_set_default_cpu_raw_alloc(inst_alloc);
  aitisa_set_default_cpu_raw_dealloc(inst_free);
  long plain = vp_live;
  vp_setup();
  VP_ASSERT(vp_live == plain, "tensors take their memory from the installed allocator");
  Tensor o = NULL;
  long held = inst_live, n0 = inst_n;
  VP_ASSERT(vp_call(&o) == STATUS_SUCCESS && o != NULL, "a valid call succeeds");
  VP_ASSERT(vp_live == plain, "nothing that outlives the call comes from elsewhere");
  VP_ASSERT(inst_live > held && inst_n > n0, "the output takes its memory from the installed allocator");
  char *b = aitisa_tensor_data(o);          /* the whole of it is writable */
  int64_t nb = aitisa_tensor_size(o) * aitisa_tensor_data_type(o).size;
  for (int64_t i = 0; i < nb; i++) b[i] = (char)i;
  VP_ASSERT(aitisa_destroy(&o) == STATUS_SUCCESS && o == NULL, "destroying the output succeeds");
  VP_ASSERT(inst_live == held, "the output goes back to the installed allocator");
  vp_destroy_inputs();
  VP_ASSERT(inst_live == 0, "every block goes back to the installed allocator");
  VP_ASSERT(vp_live == plain, "nothing else stays allocated");
  VP_ASSERT(aitisa_default_cpu_allocator()->raw_alloc == inst_alloc && aitisa_default_cpu_allocator()->raw_dealloc == inst_free, "the installed allocator stays installed");
  aitisa_set_default_cpu_raw_alloc(def_alloc);
  aitisa_set_default_cpu_raw_dealloc(def_free);
#elif VP_MODE == 6
  /* o = f(X); f(Y) on other tensors; q = f(X) must equal o */
  vp_setup();
  Tensor sx[VP_MAXIN], sy[VP_MAXIN], o = NULL, y = NULL, q = NULL;
  VP_ASSERT(vp_call(&o) == STATUS_SUCCESS, "a valid call succeeds");
  for (int k = 0; k < vp_nin; k++) sx[k] = vp_in[k];
  vp_other_inputs();
  VP_ASSERT(vp_call(&y) == STATUS_SUCCESS, "a valid call succeeds");
  VP_ASSERT(y != o, "each call produces its own output");
  for (int k = 0; k < vp_nin; k++) { sy[k] = vp_in[k]; vp_in[k] = sx[k]; }
#ifdef VP_DROP
  VP_ASSERT(aitisa_destroy(&y) == STATUS_SUCCESS, "destroying the other output succeeds");
  for (int k = 0; k < vp_nin; k++) VP_ASSERT(aitisa_destroy(&sy[k]) == STATUS_SUCCESS, "destroying an input succeeds");
#endif
  VP_ASSERT(vp_call(&q) == STATUS_SUCCESS, "the same call succeeds again");
  VP_ASSERT(q != o && aitisa_tensor_data(q) != aitisa_tensor_data(o), "each call produces its own output");
  vp_same(o, q);
#elif VP_MODE == 7
  vp_setup();
  Tensor o = NULL, y = NULL;
  VP_ASSUME(vp_call(&o) == STATUS_SUCCESS);
  vp_other_inputs();
  VP_ASSUME(vp_call(&y) == STATUS_SUCCESS);
  VP_ASSERT(aitisa_tensor_size(o) == 0 || VP_SAME(((VP_OUT_T *)aitisa_tensor_data(o))[0], ((VP_OUT_T *)aitisa_tensor_data(y))[0]), "reach: a later call can give another result");
#elif VP_MODE == 4
  vp_setup();
  Tensor o = NULL, q = NULL;
  VP_ASSERT(vp_call(&o) == STATUS_SUCCESS, "a valid call succeeds");
#ifndef VP_CBMC
  vp_fill_mix ^= 0x3c;
#endif
  VP_ASSERT(vp_call(&q) == STATUS_SUCCESS, "the same call succeeds again");
  vp_same(o, q);
  (void)vp_copy;
#endif
  VP_REACHED();
}
