/* CRC-24Q against long division by its generator polynomial. */
#include <swiftnav/edc.h>
#include "vp.h"
static uint32_t ref_byte(uint32_t crc, uint8_t b) {
  crc ^= (uint32_t)b << 16;
  for (int i = 0; i < 8; i++) {
    crc = crc & 0x800000 ? (crc << 1) ^ 0x1864CFB : crc << 1;
  }
  return crc & 0xFFFFFF;
}
void harness(void) {
#if defined(STEP)
  uint32_t crc = vp_u32();
  uint8_t b = vp_u8();
  ASSUME(crc <= 0xFFFFFF);
  uint32_t got = crc24q(&b, 1, crc);
  CHECK(got == ref_byte(crc, b), "one byte step is division by the generator");
  CHECK(got <= 0xFFFFFF, "result has 24 bits");
  WITNESS("step", crc == 0x123456 && b == 0xA5);
#elif defined(FOLD)
  uint8_t buf[NB + 1];
  vp_bytes(buf, NB);
  uint32_t crc = vp_u32();
  const uint32_t n = NB, k = SPLITB;
  ASSUME(crc <= 0xFFFFFF);
  const uint8_t *p = buf + (NB - n);
  uint32_t want = crc;
  for (unsigned i = 0; i < NB; i++) {
    if (i >= NB - n) {
      want = crc24q(buf + i, 1, want);
    }
  }
  CHECK(crc24q(p, n, crc) == want, "message CRC is the fold of its bytes");
  CHECK(crc24q(p + k, n - k, crc24q(p, k, crc)) == want, "CRC continues over any split");
  WITNESS("split", crc == 0x654321 && (NB == 0 || buf[0] == 3));
#elif defined(LONG)
  /* lengths beyond 8 and 16 bits: zero bytes cost nothing, three symbolic bytes decide */
  static uint8_t buf[LONG];
  uint8_t a = vp_u8(), b = vp_u8(), c = vp_u8();
  buf[0] = a;
  buf[LONG / 2] = b;
  buf[LONG - 1] = c;
  uint32_t want = 0;
  for (unsigned i = 0; i < LONG; i++) {
    want = crc24q(buf + i, 1, want);
  }
  CHECK(crc24q(buf, LONG, 0) == want, "long message");
  WITNESS("long", a == 0 && b == 0 && c == 77);
#else
  uint8_t buf[NB] = {0}, pad[NB + 1] = {0};
#if BITS > 64
  /* long messages: the last byte is free */
  buf[0] = 0x5A;
  buf[NB / 2] = 0xC3;
  buf[NB - 1] = vp_u8();
  uint32_t crc = 0;
#else
  vp_bytes(buf, sizeof(buf));
  uint32_t crc = vp_u32();
#endif
  const uint32_t n_bits = BITS;
  uint8_t inv = vp_u8();
  ASSUME(crc <= 0xFFFFFF && inv <= 1);
  enum { M = (BITS + 7) / 8, T = BITS / 8 + 1 };
  const uint8_t *p = buf + (NB - M);
  for (unsigned i = 0; i < n_bits; i++) {
    unsigned bit = ((p[i / 8] >> (7 - i % 8)) & 1) ^ inv;
    unsigned o = 8 * T - n_bits + i;
    pad[o / 8] |= bit << (7 - o % 8);
  }
  CHECK(crc24q_bits(crc, p, n_bits, inv) == crc24q(pad, T, crc), "bit message equals the zero-padded byte message");
  WITNESS("inverted", inv == 1);
  WITNESS("plain", inv == 0);
#endif
}
