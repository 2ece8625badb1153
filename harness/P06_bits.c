/* Bit streams: every position, length and request. */
#include <swiftnav/bitstream.h>
#include "vp.h"
void harness(void) {
  uint8_t data[NB], old[NB];
  vp_bytes(data, sizeof(data));
  memcpy(old, data, sizeof(old));
  uint32_t blen = vp_u32(), off = vp_u32(), pos = vp_u32(), len = vp_u32();
  const uint8_t op = OP;
  ASSUME(blen <= 8 * NB);
  uint8_t *p = data + (NB - (blen + 7) / 8);
  bool fits = (uint64_t)off + pos + len <= blen;
#ifdef OUT
  swiftnav_out_bitstream_t s;
  swiftnav_out_bitstream_init(&s, p, blen);
  CHECK(s.data == p && s.len == blen && s.offset == 0, "fresh stream at the start of its buffer");
  CHECK(swiftnav_out_bitstream_remaining(&s) == blen, "fresh stream has everything left");
  s.offset = off;
  CHECK(swiftnav_out_bitstream_remaining(&s) == (off > blen ? 0 : blen - off), "remaining is length minus consumed");
  CHECK(swiftnav_out_bitstream_would_overflow(&s, pos, len) == !fits, "overflow predicate");
  uint64_t v = vp_u64();
  uint32_t v32 = (uint32_t)v;
  int32_t vs = (int32_t)v32;
  int64_t vl = (int64_t)v;
  bool ok;
  if (op < 2) {
    ASSUME(!fits || (len <= 32 && len >= 1));
    ok = op == 0 ? swiftnav_out_bitstream_setbitu(&s, &v32, pos, len) : swiftnav_out_bitstream_setbits(&s, &vs, pos, len);
  } else {
    ASSUME(!fits || (len <= 64 && len >= 1));
    ok = op == 2 ? swiftnav_out_bitstream_setbitul(&s, &v, pos, len) : swiftnav_out_bitstream_setbitsl(&s, &vl, pos, len);
  }
  CHECK(ok == fits, "a write is accepted exactly when it fits");
  CHECK(s.offset == off && s.len == blen && s.data == p, "a write does not move the stream");
  if (!ok) {
    for (unsigned i = 0; i < NB; i++) {
      CHECK(data[i] == old[i], "a refused write changes nothing");
    }
  } else {
    uint8_t *w = old + (NB - (blen + 7) / 8);
    if (op < 2) {
      setbitu(w, off + pos, len, v32);
    } else {
      setbitul(w, off + pos, len, v);
    }
    for (unsigned i = 0; i < NB; i++) {
      CHECK(data[i] == old[i], "an accepted write stores the value in its field");
    }
  }
  swiftnav_out_bitstream_remove(&s, len);
  if ((uint64_t)off + len <= UINT32_MAX) {
    CHECK(swiftnav_out_bitstream_remaining(&s) == ((uint64_t)off + len > blen ? 0 : blen - off - len), "removing advances by exactly the amount");
  }
  WITNESS("huge request", len == 0xfffffff0u && !ok && blen == 40 && off == 8);
  WITNESS("exact fit", off == 5 && pos == 2 && len == 17 && blen == 24 && ok);
#else
  swiftnav_in_bitstream_t s;
  swiftnav_in_bitstream_init(&s, p, blen);
  CHECK(s.data == p && s.len == blen && s.offset == 0, "fresh stream at the start of its buffer");
  CHECK(swiftnav_in_bitstream_remaining(&s) == blen, "fresh stream has everything left");
  s.offset = off;
  CHECK(swiftnav_in_bitstream_remaining(&s) == (off > blen ? 0 : blen - off), "remaining is length minus consumed");
  CHECK(swiftnav_in_bitstream_would_overflow(&s, pos, len) == !fits, "overflow predicate");
  uint64_t v = vp_u64(), v0 = v;
  uint32_t v32 = (uint32_t)v;
  int32_t vs = (int32_t)v32;
  int64_t vl = (int64_t)v;
  bool ok;
  if (op < 2) {
    ASSUME(!fits || (len <= 32 && len >= 1));
    ok = op == 0 ? swiftnav_in_bitstream_getbitu(&s, &v32, pos, len) : swiftnav_in_bitstream_getbits(&s, &vs, pos, len);
    if (ok) {
      CHECK(op == 0 ? v32 == getbitu(p, off + pos, (uint8_t)len) : vs == getbits(p, off + pos, (uint8_t)len), "a read yields the addressed bits");
    } else {
      CHECK(v32 == (uint32_t)v0 && vs == (int32_t)(uint32_t)v0, "a refused read leaves its output");
    }
  } else {
    ASSUME(!fits || (len <= 64 && len >= 1));
    ok = op == 2 ? swiftnav_in_bitstream_getbitul(&s, &v, pos, len) : swiftnav_in_bitstream_getbitsl(&s, &vl, pos, len);
    if (ok) {
      CHECK(op == 2 ? v == getbitul(p, off + pos, (uint8_t)len) : vl == getbitsl(p, off + pos, (uint8_t)len), "a read yields the addressed bits");
    } else {
      CHECK(v == v0 && vl == (int64_t)v0, "a refused read leaves its output");
    }
  }
  CHECK(ok == fits, "a read is accepted exactly when it fits");
  CHECK(s.offset == off && s.len == blen && s.data == p, "a read does not move the stream");
  swiftnav_in_bitstream_remove(&s, len);
  if ((uint64_t)off + len <= UINT32_MAX) {
    CHECK(swiftnav_in_bitstream_remaining(&s) == ((uint64_t)off + len > blen ? 0 : blen - off - len), "removing advances by exactly the amount");
  }
  WITNESS("huge request", len == 0xfffffff0u && !ok && blen == 40 && off == 8);
  WITNESS("exact fit", off == 5 && pos == 2 && len == 17 && blen == 24 && ok && op == OP);
#endif
}
