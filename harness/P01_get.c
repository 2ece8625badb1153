/* Field readers against a per-bit reference, on a buffer that ends exactly where the field does. */
#include <swiftnav/bits.h>
#include "vp.h"
static unsigned bit(const uint8_t *b, unsigned i) { return (b[i / 8] >> (7 - i % 8)) & 1; }

void harness(void) {
  uint8_t buf[NB];
  uint32_t pos = vp_u8(), len = vp_u8();
  vp_bytes(buf, sizeof(buf));
  ASSUME(len >= 1 && len <= W && pos + len <= 8 * NB);
  unsigned nbytes = (pos + len + 7) / 8;
  /* the object ends with the last byte the field covers: any further read is out of bounds */
  const uint8_t *p = buf + (NB - nbytes);
  uint64_t ref = 0;
  for (unsigned i = 0; i < W; i++) {
    if (i < len) {
      ref = (ref << 1) | bit(p, pos + i);
    }
  }
#if W == 32
  uint32_t u = getbitu(p, pos, (uint8_t)len);
  CHECK(u == (uint32_t)ref, "unsigned 32-bit field read");
  int32_t s = getbits(p, pos, (uint8_t)len);
  uint32_t ext = (ref >> (len - 1)) & 1 ? (len == 32 ? (uint32_t)ref : (uint32_t)ref | (~0u << len)) : (uint32_t)ref;
  CHECK((uint32_t)s == ext, "signed 32-bit field read");
#else
  uint64_t u = getbitul(p, pos, (uint8_t)len);
  CHECK(u == ref, "unsigned 64-bit field read");
  int64_t s = getbitsl(p, pos, (uint8_t)len);
  uint64_t ext = (ref >> (len - 1)) & 1 ? (len == 64 ? ref : ref | (~0ULL << len)) : ref;
  CHECK((uint64_t)s == ext, "signed 64-bit field read");
#endif
  WITNESS("full width unaligned", len == W && pos % 8 == 3 && ref > 5);
  WITNESS("one bit", len == 1 && pos == 8 * NB - 1 && ref == 1);
}
