/* Accuracy index tables and the curve fit interval. */
#include <swiftnav/ephemeris.h>
#include "vp.h"
static const float T[16] = {2.0f, 2.8f, 4.0f, 5.7f, 8.0f, 11.3f, 16.0f, 32.0f, 64.0f, 128.0f, 256.0f, 512.0f, 1024.0f, 2048.0f, 4096.0f, 6144.0f};
void harness(void) {
#if PART == 0
  const uint8_t i = vp_u8();
  const float u = decode_ura_index(i);
  CHECK(u == (i < 16 ? T[i & 15] : -1.0f), "accuracy of a GPS index");
  CHECK(i >= 16 || encode_ura(u) == i, "coding the accuracy of an index gives the index");
  const float b = decode_bds_ura_index(i);
  CHECK(b == (i < 15 ? T[i & 15] : -1.0f), "accuracy of a BeiDou index");
  WITNESS("one past the table", i == 16);
  WITNESS("last", i == 15);
#elif PART == 1
  const float u = vp_f32();
  const uint8_t i = encode_ura(u);
  if (u >= 0 && u <= T[15]) {
    CHECK(i < 16 && T[i & 15] >= u, "the coded accuracy covers the value");
    CHECK(i == 0 || !(T[(i - 1) & 15] >= u), "no smaller index covers the value");
  } else {
    CHECK(i == 255, "negative, excessive and non-numeric accuracies have no index");
  }
  WITNESS("not a number", u != u);
  WITNESS("between", u > 11.3f && u < 16.0f);
  WITNESS("zero", u == 0);
#elif PART == 2
  const uint8_t i = vp_u8();
  const int cm = i < 50 ? i : i < 75 ? 50 + 2 * (i - 50) : i < 100 ? 100 + 4 * (i - 75) : i < 126 ? 200 + 16 * (i - 100) : 600;
  const float u = decode_sisa_index(i);
  if (i == 255) {
    CHECK(u == -1.0f, "no accuracy prediction available");
  } else {
    const float d = u * 100.0f - (float)cm;
    CHECK(d < 0.01f && d > -0.01f, "accuracy of a Galileo index");
  }
  WITNESS("spare", i == 254);
  WITNESS("last", i == 125);
#else
  const uint8_t f = vp_u8();
  const uint16_t c = vp_u16();
  uint32_t h = 4;
  if (f) {
    h = c >= 240 && c <= 247 ? 8 : (c >= 248 && c <= 255) || c == 496 ? 14 : (c >= 497 && c <= 503) || (c >= 1021 && c <= 1023) ? 26
        : c >= 504 && c <= 510 ? 50 : c == 511 || (c >= 752 && c <= 756) ? 74 : c == 757 ? 98 : 6;
  }
  CHECK(decode_fit_interval(f, c) == h * 3600, "fit interval");
  WITNESS("98 hours", h == 98);
#endif
}
