/* Free times. */
#ifndef VPTIME_H
#define VPTIME_H
#include <math.h>
#include <swiftnav/gnss_time.h>
#include "vp.h"
#define W 604800
#define WD 604800.0
/* any double in [lo, hi) */
static inline double vp_dbl(double lo, double hi) {
  double d = vp_f64();
  ASSUME(d >= lo && d < hi);
  return d;
}
static inline gps_time_t vp_time(int32_t wlo, int32_t whi) {
  gps_time_t t;
  t.tow = vp_dbl(0, WD);
  t.wn = vp_s16();
  ASSUME(t.wn >= wlo && t.wn <= whi);
  return t;
}
/* a - b in seconds, week numbers known */
static inline double span(const gps_time_t *a, const gps_time_t *b) { return (a->tow - b->tow) + (double)((int32_t)a->wn - (int32_t)b->wn) * WD; }
#endif
