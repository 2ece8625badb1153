/* Harness vocabulary. The same harness is compiled twice: by goto-cc, where inputs are
 * free values decided by the solver, and natively, where they come from a counterexample. */
#ifndef VP_H
#define VP_H
#include <assert.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#ifdef VP_CPROVER
uint8_t nondet_vp_u8(void);
uint16_t nondet_vp_u16(void);
uint32_t nondet_vp_u32(void);
uint64_t nondet_vp_u64(void);
double nondet_vp_f64(void);
float nondet_vp_f32(void);
#define VP_IN(T, tag)                        \
  static inline T vp_##tag(void) {           \
    T in_ = nondet_vp_##tag();               \
    __CPROVER_input("in", in_);              \
    return in_;                              \
  }
VP_IN(uint8_t, u8)
VP_IN(uint16_t, u16)
VP_IN(uint32_t, u32)
VP_IN(uint64_t, u64)
VP_IN(double, f64)
VP_IN(float, f32)
#define ASSUME(c) __CPROVER_assume(c)
#ifdef VP_WITNESS
#define CHECK(c, msg) ((void)0)
#define WITNESS(label, c) __CPROVER_assert(!(c), "witness:" label)
#else
#define CHECK(c, msg) __CPROVER_assert((c), "check:" msg)
#define WITNESS(label, c) ((void)0)
#endif
#define CHECK_EQ(a, b, tol, msg)                                   \
  do {                                                             \
    double vp_d = (a) - (b);                                       \
    CHECK(vp_d <= (tol) && vp_d >= -(tol), msg);                   \
  } while (0)
#define CHECK_LE(a, b, tol, msg) CHECK((a) - (b) <= (tol), msg)
#define SPLIT(c) ((void)0)
#define PICK(x) (x)
#elif defined(VP_LSX) /* symbolic execution of the LLVM IR over exact reals (vlib/lsx.py) */
uint8_t vp_u8(void);
uint16_t vp_u16(void);
uint32_t vp_u32(void);
uint64_t vp_u64(void);
double vp_f64(void);
float vp_f32(void);
void vp_assume(bool c);
void vp_check(bool c, const char *msg);
void vp_check_eq(double a, double b, double tol, const char *msg);
void vp_check_le(double a, double b, double tol, const char *msg);
void vp_witness_c(const char *label, bool c);
void vp_split(bool c);
int32_t vp_pick(int32_t x);
#define ASSUME(c) vp_assume(c)
#define CHECK(c, msg) vp_check((c), msg)
#define CHECK_EQ(a, b, tol, msg) vp_check_eq((a), (b), (tol), msg)
#define CHECK_LE(a, b, tol, msg) vp_check_le((a), (b), (tol), msg)
#define WITNESS(label, c) vp_witness_c(label, (c))
#define SPLIT(c) vp_split(c)
#define PICK(x) vp_pick(x)
#else /* native replay */
uint64_t vp_next(unsigned bits);
static inline uint8_t vp_u8(void) { return (uint8_t)vp_next(8); }
static inline uint16_t vp_u16(void) { return (uint16_t)vp_next(16); }
static inline uint32_t vp_u32(void) { return (uint32_t)vp_next(32); }
static inline uint64_t vp_u64(void) { return vp_next(64); }
static inline double vp_f64(void) {
  uint64_t v = vp_next(64);
  double d;
  memcpy(&d, &v, 8);
  return d;
}
static inline float vp_f32(void) {
  uint32_t v = (uint32_t)vp_next(32);
  float d;
  memcpy(&d, &v, 4);
  return d;
}
void vp_fail(const char *msg, const char *file, int line);
void vp_assume_failed(const char *file, int line);
void vp_witness(const char *label);
#define ASSUME(c)                            \
  do {                                       \
    if (!(c)) {                              \
      vp_assume_failed(__FILE__, __LINE__);  \
    }                                        \
  } while (0)
#define CHECK(c, msg)                        \
  do {                                       \
    if (!(c)) {                              \
      vp_fail(msg, __FILE__, __LINE__);      \
    }                                        \
  } while (0)
#define WITNESS(label, c)                    \
  do {                                       \
    if (c) {                                 \
      vp_witness(label);                     \
    }                                        \
  } while (0)
/* equality and order of doubles up to rounding: exact for the solver over the reals, up to tol natively */
#define CHECK_EQ(a, b, tol, msg)                             \
  do {                                                       \
    double vp_d = (a) - (b);                                 \
    if (!(vp_d <= (tol) && vp_d >= -(tol))) {                \
      printf("%.17g != %.17g\n", (double)(a), (double)(b)); \
      vp_fail(msg, __FILE__, __LINE__);                      \
    }                                                        \
  } while (0)
#define CHECK_LE(a, b, tol, msg) CHECK((a) - (b) <= (tol), msg)
#define SPLIT(c) ((void)(c))
#define PICK(x) (x)
#endif

#ifdef VP_LSX
int8_t vp_s8(void);
int16_t vp_s16(void);
int32_t vp_s32(void);
int64_t vp_s64(void);
uint32_t vp_range(uint32_t lo, uint32_t hi);
int32_t vp_srange(int32_t lo, int32_t hi);
#else
static inline int8_t vp_s8(void) { return (int8_t)vp_u8(); }
static inline int16_t vp_s16(void) { return (int16_t)vp_u16(); }
static inline int32_t vp_s32(void) { return (int32_t)vp_u32(); }
static inline int64_t vp_s64(void) { return (int64_t)vp_u64(); }
/* free value in [lo, hi] */
static inline uint32_t vp_range(uint32_t lo, uint32_t hi) {
  uint32_t v = vp_u32();
  ASSUME(v >= lo && v <= hi);
  return v;
}
static inline int32_t vp_srange(int32_t lo, int32_t hi) {
  int32_t v = vp_s32();
  ASSUME(v >= lo && v <= hi);
  return v;
}
#endif
static inline bool vp_bool(void) { return (vp_u8() & 1) != 0; }
static inline void vp_bytes(void *p, size_t n) {
  for (size_t vp_i = 0; vp_i < n; vp_i++) {
    ((uint8_t *)p)[vp_i] = vp_u8();
  }
}
void harness(void);
#endif
