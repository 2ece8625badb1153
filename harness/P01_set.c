/* Field writers: every bit of the buffer after a write, and write/read round trip. */
#include <swiftnav/bits.h>
#include "vp.h"
static unsigned bit(const uint8_t *b, unsigned i) { return (b[i / 8] >> (7 - i % 8)) & 1; }

void harness(void) {
  uint8_t buf[NB], old[NB];
  uint32_t pos = vp_u8(), len = vp_u8(), at = vp_u8();
  uint64_t data = vp_u64();
  uint8_t which = vp_u8();
  vp_bytes(old, sizeof(old));
  ASSUME(len >= 1 && len <= W && pos + len <= 8 * NB);
  unsigned nbytes = (pos + len + 7) / 8;
  memcpy(buf, old, sizeof(buf));
  /* the object ends with the last byte the field covers */
  uint8_t *p = buf + (NB - nbytes);
  const uint8_t *q = old + (NB - nbytes);
  /* one arbitrary bit of the object before or after the field */
  ASSUME(at < 8 * nbytes);
#if W == 32
  if (which & 1) {
    setbitu(p, pos, len, (uint32_t)data);
  } else {
    setbits(p, pos, len, (int32_t)data);
  }
#else
  if (which & 1) {
    setbitul(p, pos, len, data);
  } else {
    setbitsl(p, pos, len, (int64_t)data);
  }
#endif
  unsigned want = (at >= pos && at < pos + len) ? (unsigned)(data >> (len - 1 - (at - pos))) & 1 : bit(q, at);
  CHECK(bit(p, at) == want, "write changes exactly the field");
  for (unsigned i = 0; i < NB; i++) {
    CHECK(i >= NB - nbytes || buf[i] == old[i], "write leaves bytes before the buffer unchanged");
  }
  WITNESS("full width unaligned", len == W && pos % 8 == 5 && (which & 1));
  WITNESS("signed write", !(which & 1) && len == 7 && at < pos);
}
