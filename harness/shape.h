/* concrete shape of a case: -DVP_DIMS='{2,3}' -DVP_ND=2 -DVP_N=6 (VP_N: element count) */
#ifndef VP_DIMS
#define VP_DIMS {2,3}
#define VP_ND 2
#define VP_N 6
#endif
#define VP_N1 (VP_N ? VP_N : 1)
#if VP_ND == 0
static const int64_t vp_d[1] = {1};
#else
static const int64_t vp_d[] = VP_DIMS;
#endif
