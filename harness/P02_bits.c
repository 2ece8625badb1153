/* Parity, bit counting, interleaving, sign extension and byte order against bitwise definitions. */
#include <swiftnav/bits.h>
#include "vp.h"
static unsigned pop(uint64_t v, unsigned w, unsigned bv) {
  unsigned n = 0;
  for (unsigned i = 0; i < w; i++) {
    n += ((v >> i) & 1) == bv;
  }
  return n;
}
static uint64_t rev(uint64_t v, unsigned bytes) {
  uint64_t r = 0;
  for (unsigned i = 0; i < bytes; i++) {
    r |= ((v >> (8 * i)) & 0xff) << (8 * (bytes - 1 - i));
  }
  return r;
}
static uint64_t be(const void *p, unsigned n) {
  uint64_t r = 0;
  for (unsigned i = 0; i < n; i++) {
    r = r << 8 | ((const uint8_t *)p)[i];
  }
  return r;
}
static uint64_t le(const void *p, unsigned n) { return rev(be(p, n), n); }
#define SX32(n)                                                                          \
  CHECK((int64_t)BITS_SIGN_EXTEND_32(n, (uint32_t)v) ==                                   \
            ((v >> ((n)-1)) & 1 ? (int64_t)((uint32_t)v & (uint32_t)((1ull << (n)) - 1)) - (1ll << (n)) \
                                : (int64_t)((uint32_t)v & (uint32_t)((1ull << (n)) - 1))), \
        "32-bit sign extension");
#define LOW64(n) ((n) == 64 ? v : v & ((1ull << ((n) % 64)) - 1))
#define SX64(n)                                                                                       \
  CHECK((uint64_t)BITS_SIGN_EXTEND_64(n, v) ==                                                         \
            ((v >> ((n)-1)) & 1 ? (LOW64(n) | ((n) == 64 ? 0 : ~0ull << ((n) % 64))) : LOW64(n)),       \
        "64-bit sign extension");
#define FOR32(X) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15) X(16) X(17) X(18) X(19) X(20) X(21) X(22) X(23) X(24) X(25) X(26) X(27) X(28) X(29) X(30) X(31) X(32)
#define FOR64(X) FOR32(X) X(33) X(34) X(35) X(36) X(37) X(38) X(39) X(40) X(41) X(42) X(43) X(44) X(45) X(46) X(47) X(48) X(49) X(50) X(51) X(52) X(53) X(54) X(55) X(56) X(57) X(58) X(59) X(60) X(61) X(62) X(63) X(64)

void harness(void) {
  uint64_t v = vp_u64();
#if defined(COUNT)
  uint8_t bv = vp_u8();
  ASSUME(bv <= 1);
#if COUNT == 64
  CHECK(count_bits_u64(v, bv) == pop(v, 64, bv), "count of 64-bit value");
#else
  CHECK(parity((uint32_t)v) == pop((uint32_t)v, 32, 1) % 2, "parity is the XOR of all bits");
  CHECK(count_bits_u32((uint32_t)v, bv) == pop((uint32_t)v, 32, bv), "count of 32-bit value");
  CHECK(count_bits_u16((uint16_t)v, bv) == pop((uint16_t)v, 16, bv), "count of 16-bit value");
  CHECK(count_bits_u8((uint8_t)v, bv) == pop((uint8_t)v, 8, bv), "count of 8-bit value");
#endif
  WITNESS("zeros counted", bv == 0 && v == 0x8000000000000001ull);
#elif defined(SIGNX)
  FOR32(SX32)
  FOR64(SX64)
  WITNESS("negative", (v >> 63) == 1);
#else
  uint8_t x = (uint8_t)v, y = (uint8_t)(v >> 8);
  uint16_t z = bytes_interleave(x, y);
  for (unsigned i = 0; i < 8; i++) {
    CHECK(((z >> (2 * i)) & 1) == ((x >> i) & 1) && ((z >> (2 * i + 1)) & 1) == ((y >> i) & 1), "bits of two bytes interleaved");
  }
  uint16_t v16 = (uint16_t)v;
  uint32_t v32 = (uint32_t)v;
  CHECK(byte_swap_16(v16) == rev(v16, 2), "16-bit byte swap");
  CHECK(byte_swap_32(v32) == rev(v32, 4), "32-bit byte swap");
  CHECK(byte_swap_64(v) == rev(v, 8), "64-bit byte swap");
#define EO(w, T, val)                                                                            \
  {                                                                                              \
    T b = htobe_##w(val), l = htole_##w(val), in = val;                                           \
    CHECK(be(&b, w / 8) == (uint64_t)(T)(val), "host to big endian stores most significant first");    \
    CHECK(le(&l, w / 8) == (uint64_t)(T)(val), "host to little endian stores least significant first"); \
    CHECK(betoh_##w(in) == (T)be(&in, w / 8), "big endian to host");                              \
    CHECK(letoh_##w(in) == (T)le(&in, w / 8), "little endian to host");                           \
    CHECK(betoh_##w(b) == (T)(val) && letoh_##w(l) == (T)(val), "byte order round trip");         \
  }
  EO(16, uint16_t, v16)
  EO(32, uint32_t, v32)
  EO(64, uint64_t, v)
  WITNESS("order", v == 0x0102030405060708ull);
#endif
}
