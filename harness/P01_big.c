/* Positions beyond 16 bits: the same field read at a large position of a large buffer. */
#include <swiftnav/bits.h>
#include "vp.h"
uint8_t big[8208];
void harness(void) {
  uint32_t pos = 65533;
  const uint8_t len = LEN;
  uint8_t small[16];
  vp_bytes(small, sizeof(small));
  uint32_t base = 65536 / 8 - 4;
  for (unsigned i = 0; i < sizeof(small); i++) {
    big[base + i] = small[i];
  }
  CHECK(getbitul(big, pos, len) == getbitul(small, pos - 8 * base, len), "64-bit read at a large position");
  CHECK(getbitsl(big, pos, len) == getbitsl(small, pos - 8 * base, len), "signed 64-bit read at a large position");
  if (len <= 32) {
    CHECK(getbitu(big, pos, len) == getbitu(small, pos - 8 * base, len), "32-bit read at a large position");
    CHECK(getbits(big, pos, len) == getbits(small, pos - 8 * base, len), "signed 32-bit read at a large position");
    uint32_t v = vp_u32();
    setbitu(big, pos, len, v);
    setbitu(small, pos - 8 * base, len, v);
  } else {
    uint64_t v = vp_u64();
    setbitul(big, pos, len, v);
    setbitul(small, pos - 8 * base, len, v);
  }
  for (unsigned i = 0; i < sizeof(small); i++) {
    CHECK(big[base + i] == small[i], "write at a large position");
  }
  WITNESS("crosses 64k", small[3] == 9);
}
