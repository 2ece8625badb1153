/* Bit-range copy between distinct buffers and left shift of a buffer. */
#include <swiftnav/bits.h>
#include "vp.h"
static unsigned bit(const uint8_t *b, unsigned i) { return (b[i / 8] >> (7 - i % 8)) & 1; }

void harness(void) {
#ifdef SHIFT
  uint8_t buf[NB], old[NB];
  uint32_t size = vp_u8(), shift = vp_u32(), at = vp_u32();
  vp_bytes(old, sizeof(old));
  memcpy(buf, old, sizeof(buf));
  ASSUME(size >= 1 && size <= NB && at < 8 * size);
  uint8_t *p = buf + (NB - size);
  const uint8_t *q = old + (NB - size);
  bitshl(p, size, shift);
  unsigned want = ((uint64_t)at + shift < 8 * size) ? bit(q, at + shift) : 0;
  CHECK(bit(p, at) == want, "left shift moves bits and fills with zero");
  for (unsigned i = 0; i < NB; i++) {
    CHECK(i >= NB - size || buf[i] == old[i], "left shift leaves bytes before the buffer unchanged");
  }
  WITNESS("unaligned", shift == 11 && size == NB && at == 3);
  WITNESS("all out", shift == 8 * size);
  WITNESS("more than all", shift > 4000000000u);
#else
  uint8_t dst[NB], old[NB], src[NB];
  uint32_t di = vp_u8(), si = vp_u8(), n = N, at = vp_u8();
  vp_bytes(old, sizeof(old));
  vp_bytes(src, sizeof(src));
  memcpy(dst, old, sizeof(dst));
  ASSUME(di + n <= 8 * NB && si + n <= 8 * NB);
#ifdef SI
  ASSUME(si == SI);
  si = SI;
#endif
  unsigned db = (di + n + 7) / 8, sb = (si + n + 7) / 8;
  uint8_t *d = dst + (NB - db);
  const uint8_t *o = old + (NB - db);
  const uint8_t *s = src + (NB - sb);
  ASSUME(at < 8 * db);
  bitcopy(d, di, s, si, n);
  unsigned want = (at >= di && at < di + n) ? bit(s, si + (at - di)) : bit(o, at);
  CHECK(bit(d, at) == want, "bit copy moves exactly the range");
  WITNESS("long unaligned", si % 8 == 1 && di == 3);
#endif
}
