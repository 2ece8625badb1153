/* Determinants, and a guard for native replays: an ill-conditioned operand magnifies rounding,
 * which is outside every claim, so such a candidate is not accepted as a counterexample. */
#ifndef VPMAT_H
#define VPMAT_H
#include <math.h>
#include "vp.h"
static double det(const double *x, int n) { /* by expansion along the first column */
  double y[16], s = 0;
  if (n == 1) {
    return x[0];
  }
  for (int r = 0; r < n; r++) {
    for (int i = 0, k = 0; i < n; i++) {
      if (i != r) {
        for (int j = 1; j < n; j++) {
          y[k++] = x[n * i + j];
        }
      }
    }
    s += (r % 2 ? -1 : 1) * x[n * r] * det(y, n - 1);
  }
  return s;
}
#ifdef VP_LSX
#define WELL_CONDITIONED(x, n) ((void)0)
#else
#define WELL_CONDITIONED(x, n)                                   \
  do {                                                           \
    double vp_p = 1;                                             \
    for (int vp_i = 0; vp_i < (n); vp_i++) {                     \
      double vp_s = 0;                                           \
      for (int vp_j = 0; vp_j < (n); vp_j++) {                   \
        vp_s += (x)[(n)*vp_i + vp_j] * (x)[(n)*vp_i + vp_j];     \
      }                                                          \
      vp_p *= sqrt(vp_s);                                        \
    }                                                            \
    ASSUME(fabs(det((x), (n))) > 1e-4 * vp_p);                   \
  } while (0)
#endif
#endif
