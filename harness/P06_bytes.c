/* Byte streams: every position, length, request, byte order and decoder, over a two-step history. */
#include <swiftnav/bytestream.h>
#include "vp.h"
enum { NB = 12 };
static uint64_t ref(const uint8_t *p, unsigned n, bool big) {
  uint64_t v = 0;
  for (unsigned i = 0; i < 8; i++) {
    if (i < n) {
      v |= (uint64_t)p[i] << (8 * (big ? n - 1 - i : i));
    }
  }
  return v;
}
static swiftnav_bytestream_t s;
#define DEC(T, name, n)                                                                                         \
  {                                                                                                             \
    T v, v0;                                                                                                    \
    uint64_t raw = vp_u64();                                                                                     \
    memcpy(&v, &raw, sizeof(v));                                                                                \
    v0 = v;                                                                                                     \
    width = n;                                                                                                  \
    ok = swiftnav_bytestream_decode_##name(&s, &v);                                                              \
    if (ok && (uint64_t)off + n <= blen) {                                                                      \
      CHECK(v == (T)ref(p + off, n, s.endianess == SWIFT_BIG_ENDIAN), "a decoded value has the selected order and sign"); \
    } else {                                                                                                    \
      CHECK(v == v0, "a refused decode leaves its output");                                                     \
    }                                                                                                           \
  }
void harness(void) {
  uint8_t data[NB];
  vp_bytes(data, sizeof(data));
  uint32_t blen = vp_u32(), off = vp_u32();
  uint8_t op = vp_u8();
  ASSUME(blen <= NB);
  const uint8_t *p = data + (NB - blen);
  swiftnav_bytestream_init(&s, p, blen);
  CHECK(s.data == p && s.len == blen && s.offset == 0, "fresh stream at the start of its buffer");
  s.endianess = vp_bool() ? SWIFT_BIG_ENDIAN : SWIFT_LITTLE_ENDIAN;
  s.offset = off;
  CHECK(swiftnav_bytestream_remaining(&s) == (off > blen ? 0 : blen - off), "remaining is length minus consumed");
  bool ok = false;
  uint32_t width = 0;
  switch (op) {
    case 0: DEC(uint8_t, u8, 1) break;
    case 1: DEC(int8_t, s8, 1) break;
    case 2: DEC(uint16_t, u16, 2) break;
    case 3: DEC(int16_t, s16, 2) break;
    case 4: DEC(uint32_t, u32, 4) break;
    case 5: DEC(int32_t, s32, 4) break;
    case 6: DEC(uint64_t, u64, 8) break;
    case 7: DEC(int64_t, s64, 8) break;
    default: {
      uint32_t idx = vp_u32(), n = vp_u32();
      uint8_t out[NB], was[NB];
      vp_bytes(out, sizeof(out));
      memcpy(was, out, sizeof(was));
      bool fits = (uint64_t)off + idx + n <= blen;
      CHECK(swiftnav_bytestream_would_overflow(&s, idx, n) == !fits, "overflow predicate");
      ok = swiftnav_bytestream_get_bytes(&s, idx, n, out);
      CHECK(ok == fits, "a read is accepted exactly when it fits");
      for (unsigned i = 0; i < NB; i++) {
        CHECK(out[i] == (ok && i < n ? p[off + idx + i] : was[i]), "a read copies exactly the requested bytes");
      }
      CHECK(s.offset == off, "a read does not move the stream");
      WITNESS("huge request", n == 0xfffffff8u && idx == 4);
      swiftnav_bytestream_remove(&s, n);
      if ((uint64_t)off + n <= UINT32_MAX) {
        CHECK(swiftnav_bytestream_remaining(&s) == ((uint64_t)off + n > blen ? 0 : blen - off - n), "removing advances by exactly the amount");
      }
      return;
    }
  }
  CHECK(ok == ((uint64_t)off + width <= blen), "a decode is accepted exactly when it fits");
  CHECK(s.offset == off + (ok ? width : 0) && s.len == blen && s.data == p, "a decode advances by its size, a refused one not at all");
  WITNESS("big endian 64", op == 7 && ok && s.endianess == SWIFT_BIG_ENDIAN && off == 3);
  WITNESS("little endian 16", op == 3 && ok && s.endianess == SWIFT_LITTLE_ENDIAN && off == 3);
}
