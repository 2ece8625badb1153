/* Navigation message words built from free fields: 30-bit words, bit 1 is the most significant. */
#ifndef VPNAV_H
#define VPNAV_H
#include "vptime.h"
static uint32_t vp_w[64];
/* place the low `width` bits of v so that its last bit is bit `last` of word w */
static inline void put(int w, int last, int width, uint32_t v) {
  vp_w[w] += v << (30 - last);
  (void)width;
}
/* a free unsigned field */
static inline uint32_t fu(int w, int last, int width) {
  const uint32_t v = vp_range(0, width == 32 ? 0xffffffffu : (1u << width) - 1);
  put(w, last, width, v);
  return v;
}
/* two's complement value of an unsigned field */
static inline int32_t twos(uint32_t v, int width) { return v >= (1u << (width - 1)) ? (int32_t)(v - (1u << (width - 1))) - (int32_t)(1u << (width - 2)) - (int32_t)(1u << (width - 2)) : (int32_t)v; }
/* a free signed field: sign bit and the rest */
static inline int32_t fs(int w, int last, int width) {
  const uint32_t b = vp_range(0, 1), r = vp_range(0, (1u << (width - 1)) - 1);
  put(w, last, width, (b << (width - 1)) + r);
  return (int32_t)r - (int32_t)b * (1 << (width - 2)) - (int32_t)b * (1 << (width - 2));
}
/* the same, both signs as separate cases */
static inline int32_t fsp(int w, int last, int width) {
  const uint32_t b = (uint32_t)PICK(vp_srange(0, 1)), r = vp_range(0, (1u << (width - 1)) - 1);
  put(w, last, width, (b << (width - 1)) + r);
  return (int32_t)r - (int32_t)b * (1 << (width - 2)) - (int32_t)b * (1 << (width - 2));
}
/* free content of the bits after `last` and of the two bits above the word */
static inline void rest(int w, int last) {
  vp_w[w] += vp_range(0, 3) << 30;
  if (last < 30) {
    vp_w[w] += vp_range(0, (1u << (30 - last)) - 1);
  }
}
static inline double p2(int e) {
  double r = 1;
  for (int i = 0; i < (e < 0 ? -e : e); i++) {
    r = e < 0 ? r / 2 : r * 2;
  }
  return r;
}
#endif
