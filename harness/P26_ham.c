/* GLONASS string check bits. */
#include <swiftnav/decode_glo.h>
#include "vp.h"
static inline uint32_t fold(uint32_t x) {
  x ^= x >> 16;
  x ^= x >> 8;
  x ^= x >> 4;
  x ^= x >> 2;
  x ^= x >> 1;
  return x & 1;
}
/* bit n (1..85) */
static inline uint32_t bit(const uint32_t *w, int n) { return (w[(n - 1) / 32] >> ((n - 1) % 32)) & 1; }
/* data bits 9..85 carry the Hamming positions that are not powers of two: 3, 5, 6, 7, 9, ... */
static uint32_t hpos(int n) {
  uint32_t h = 2;
  for (int i = 9; i <= n; i++) {
    h++;
    if ((h & (h - 1)) == 0) {
      h++;
    }
  }
  return h;
}
/* check i (1..7) covers itself and the positions with bit i-1 set; check 8 covers everything */
static uint32_t check(const uint32_t *w, int i) {
  uint32_t m[3] = {0, 0, 0};
  if (i == 8) {
    m[0] = m[1] = 0xffffffff;
    m[2] = 0x1fffff;
  } else {
    uint32_t h = 2;
    m[0] = 1u << (i - 1);
    for (int n = 9; n <= 85; n++) {
      h++;
      if ((h & (h - 1)) == 0) {
        h++;
      }
      if ((h >> (i - 1)) & 1) {
        m[(n - 1) / 32] |= 1u << ((n - 1) % 32);
      }
    }
  }
  return fold(w[0] & m[0]) ^ fold(w[1] & m[1]) ^ fold(w[2] & m[2]);
}
void harness(void) {
  glo_string_t s;
  memset(&s, 0, sizeof s);
  uint32_t w[3];
  w[0] = vp_u32(), w[1] = vp_u32(), w[2] = vp_u32() & 0x1fffff;
#if defined(EXTRACT)
  s.word[0] = w[0], s.word[1] = w[1], s.word[2] = vp_u32();
  const uint32_t first = vp_range(1, 85), width = vp_range(1, 32);
  ASSUME(first + width <= 86);
  const uint32_t r = extract_word_glo(&s, (uint16_t)first, (uint8_t)width);
  const uint32_t k = vp_range(0, 31);
  CHECK(((r >> k) & 1) == (k < width ? bit(s.word, (int)(first + k)) : 0), "the addressed bits and nothing else");
  WITNESS("across words", first == 60 && width == 26 && r == 0x3000001);
#else
  for (int i = 1; i <= 8; i++) {
    ASSUME(check(w, i) == 0);
  }
  s.word[0] = w[0], s.word[1] = w[1], s.word[2] = w[2];
#if ERRORS == 0
  CHECK(error_detection_glo(&s) == 0, "a code word is accepted");
#elif ERRORS == 1
  const uint32_t n = vp_range(9, 85);
  s.word[(n - 1) / 32] ^= 1u << ((n - 1) % 32);
  CHECK(error_detection_glo(&s) == (int)n, "the flipped data bit is located");
#else
  const uint32_t n = vp_range(1, 85), m = vp_range(1, 85);
  ASSUME(n < m);
  s.word[(n - 1) / 32] ^= 1u << ((n - 1) % 32);
  s.word[(m - 1) / 32] ^= 1u << ((m - 1) % 32);
  CHECK(error_detection_glo(&s) == -1, "two flipped bits are reported");
#endif
  WITNESS("code word", w[2] == 0x155555 && (w[1] & 0xff) == 3);
#endif
}
