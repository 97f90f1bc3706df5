/* C26: broadcasting two shapes.  Symbolic: every dimension, any non-negative value. */
#include "vp.h"
#include "src/basic/broadcast.h"
void vp_harness(void) {
  int64_t a[5], b[5], o[7], ra[5], rb[5];
  int n = VP_NA > VP_NB ? VP_NA : VP_NB;
  for (int i = 0; i < VP_NA; i++) ra[i] = a[i] = vp_range(0, INT64_MAX);
  for (int i = 0; i < VP_NB; i++) rb[i] = b[i] = vp_range(0, INT64_MAX);
  for (int i = 0; i < 7; i++) o[i] = -5;
  Status s = aitisa_broadcast_array(a, VP_NA, b, VP_NB, o + 1, n);
  int ok = 1;
  for (int i = 0; i < n; i++) {           /* i counts from the right */
    int64_t x = i < VP_NA ? ra[VP_NA - 1 - i] : 1, y = i < VP_NB ? rb[VP_NB - 1 - i] : 1;
    if (!(x == y || x == 1 || y == 1)) ok = 0;
  }
  VP_ASSERT(s == (ok ? STATUS_SUCCESS : STATUS_DIMENSIONS_MISMATCH), "accepted exactly when every aligned pair is equal or has a 1");
  if (ok)
    for (int i = 0; i < n; i++) {
      int64_t x = i < VP_NA ? ra[VP_NA - 1 - i] : 1, y = i < VP_NB ? rb[VP_NB - 1 - i] : 1;
      VP_ASSERT(o[1 + n - 1 - i] == (x == 1 ? y : x), "the broadcast dimension");
    }
  VP_ASSERT(o[0] == -5 && o[n + 1] == -5, "nothing outside the output array is written");
  for (int i = 0; i < VP_NA; i++) VP_ASSERT(a[i] == ra[i], "the inputs are left alone");
  for (int i = 0; i < VP_NB; i++) VP_ASSERT(b[i] == rb[i], "the inputs are left alone");
  VP_REACHED();
}
