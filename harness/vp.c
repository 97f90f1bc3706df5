#define VP_NO_MAIN
#include "vp.h"
#include <stdio.h>

long vp_live = 0, vp_nalloc = 0, vp_fail_at = -1;
int vp_did_fail = 0;

int vp_split = 0, vp_nth = 0;
int vp_splits(void);
/* one menu of constants after another, each in a branch of its own */
static void vp_run(void) {
  if (!vp_splits()) { vp_harness(); return; }
  uint64_t v = vp_u64();
#define BRANCH(k) if (v == k && k < vp_splits()) { vp_split = k; vp_nth = 0; vp_live = 0; vp_nalloc = 0; vp_fail_at = -1; vp_did_fail = 0; vp_harness(); return; }
  BRANCH(0) BRANCH(1) BRANCH(2) BRANCH(3) BRANCH(4) BRANCH(5)
  BRANCH(6) BRANCH(7) BRANCH(8) BRANCH(9) BRANCH(10) BRANCH(11)
}

#ifdef VP_CBMC
uint64_t nondet_u64(void);
uint64_t vp_u64(void) {
  uint64_t v = nondet_u64();
  __CPROVER_input("vpin", v);
  return v;
}
double vp_fabs(double x) { return x < 0 ? -x : x; }
/* fresh memory holds anything; the case-split search settles for zeros */
#define VP_RAW_ALLOC(n) (vp_splits() ? calloc(1, n) : malloc(n))
#else
#include <signal.h>
#include <unistd.h>
static FILE *vp_f;
uint64_t vp_u64(void) {
  unsigned long long v = 0;
  if (!vp_f) {
    const char *p = getenv("VP_REPLAY");
    if (p) vp_f = fopen(p, "r");
  }
  if (vp_f && fscanf(vp_f, "%llx", &v) != 1) v = 0;
  return v;
}
void vp_native_assume(int c, const char *what) {
  if (!c) { printf("VP-INFEASIBLE %s\n", what); fflush(stdout); _exit(77); }
}
void vp_native_fail(const char *msg) {
  printf("VP-FAIL %s\n", msg); fflush(stdout); _exit(99);
}
double vp_fabs(double x) { return x < 0 ? -x : x; }
int vp_fill_mix = 0;
static int vp_fill(void) {
  static int v = -1;
  if (v < 0) { const char *p = getenv("VP_FILL"); v = p ? (int)strtol(p, 0, 16) : 0xA5; }
  return v;
}
static void *vp_raw(size_t n) { void *p = malloc(n ? n : 1); if (p) memset(p, vp_fill() ^ vp_fill_mix, n); return p; }
#define VP_RAW_ALLOC(n) vp_raw(n)
#endif

int64_t vp_range(int64_t lo, int64_t hi) {
  int64_t v = (int64_t)vp_u64();
  VP_ASSUME(v >= lo && v <= hi);
  return v;
}

void *vp_malloc(size_t n) {
  long k = vp_nalloc++;
  if (k == vp_fail_at) { vp_did_fail = 1; return NULL; }
  void *p = VP_RAW_ALLOC(n);
  vp_live++;
  return p;
}
void *vp_calloc(size_t n, size_t m) {
  void *p = vp_malloc(n * m);
  if (p) memset(p, 0, n * m);
  return p;
}
/* not used by the library today; kept conservative */
void *vp_realloc(void *p, size_t n) {
  long k = vp_nalloc++;
  if (k == vp_fail_at) { vp_did_fail = 1; return NULL; }
  if (!p) vp_live++;
  return realloc(p, n);
}
#ifdef VP_CBMC
void vp_free(void *p) {
  if (p) vp_live--;
  free(p);
}
int main(void) { vp_run(); return 0; }
#else
void vp_free(void *p) {
  if (p) vp_live--;
  free(p);
#if defined(__x86_64__)
  __asm__ volatile("movl $0x5a5a5a5a, %%eax" ::: "eax");
#endif
}
/* rand(): the solver's draws, in order (any value of its documented range) */
int rand(void) { return (int)(vp_u64() & 0x7fffffff); }
void srand(unsigned s) { (void)s; }
int main(void) {
  alarm(60);
  setvbuf(stdout, NULL, _IONBF, 0);
  vp_run();
  printf("VP-OK\n");
  return 0;
}
#endif
