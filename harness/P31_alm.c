/* GPS almanac and health pages: exactly the interface document's bit fields. */
#include <swiftnav/almanac.h>
#include "vpnav.h"
#define PI_ 3.1415926535898
#if PART == 1
void harness(void) {
  const uint32_t id = fu(0, 2, 2), sv = fu(0, 8, 6), ecc = fu(0, 24, 16);
  rest(0, 24);
  const uint32_t toa = fu(1, 8, 8);
  const int32_t inc = fs(1, 24, 16);
  rest(1, 24);
  const int32_t od = fs(2, 16, 16);
  const uint32_t hl = fu(2, 24, 8);
  rest(2, 24);
  const uint32_t sq = fu(3, 24, 24);
  rest(3, 24);
  const int32_t o0 = fs(4, 24, 24);
  rest(4, 24);
  const int32_t w = fs(5, 24, 24);
  rest(5, 24);
  const int32_t m0 = fs(6, 24, 24);
  rest(6, 24);
  const int32_t af0h = fsp(7, 8, 8);
  const int32_t af1 = fsp(7, 19, 11);
  const uint32_t af0l = fu(7, 22, 3);
  rest(7, 22);
  static almanac_t a;
  memset(&a, 0x5a, sizeof a);
  const bool ok = almanac_decode(vp_w, &a);
  CHECK(ok == (id == 1 && sv >= 1 && sv <= 32), "accepted exactly for data ID 1 and satellite 1 to 32");
  if (ok) {
    CHECK(a.valid == 1, "valid");
    CHECK(a.sid.sat == sv && a.sid.code == CODE_GPS_L1CA, "satellite");
    CHECK(a.fit_interval == 140 * 3600, "at least 140 hours");
    CHECK_EQ(a.ura, 900.0, 0, "accuracy");
    CHECK(a.toa.wn == WN_UNKNOWN, "week not in the page");
    CHECK_EQ(a.toa.tow, toa * 4096.0, 1e-9, "time of almanac");
    CHECK(a.health_bits == hl, "health");
    CHECK_EQ(a.data.kepler.ecc, ecc * p2(-21), 1e-15, "eccentricity");
    CHECK_EQ(a.data.kepler.inc, inc * (p2(-19) * PI_) + 0.30 * PI_, 1e-12, "inclination");
    CHECK_EQ(a.data.kepler.omegadot, od * (p2(-38) * PI_), 1e-15, "node rate");
    CHECK_EQ(a.data.kepler.sqrta, sq * p2(-11), 1e-9, "root of the semi-major axis");
    CHECK_EQ(a.data.kepler.omega0, o0 * (p2(-23) * PI_), 1e-12, "node");
    CHECK_EQ(a.data.kepler.w, w * (p2(-23) * PI_), 1e-12, "argument of perigee");
    CHECK_EQ(a.data.kepler.m0, m0 * (p2(-23) * PI_), 1e-12, "mean anomaly");
    CHECK_EQ(a.data.kepler.af0, (af0h * 8.0 + af0l) * p2(-20), 1e-15, "clock offset");
    CHECK_EQ(a.data.kepler.af1, af1 * p2(-38), 1e-18, "clock drift");
  } else {
    const uint8_t *p = (const uint8_t *)&a;
    uint8_t any = 0;
    for (size_t k = 0; k < sizeof a; k++) {
      any |= p[k];
    }
    CHECK(any == 0, "a refused page leaves an all-zero record");
  }
  WITNESS("sat 32", ok && sv == 32 && af0l == 7);
  WITNESS("refused", !ok);
}
#else
void harness(void) {
  const uint32_t id = fu(0, 2, 2), sv = fu(0, 8, 6);
  rest(0, 8);
  uint32_t h[8][4];
  for (int w = 1; w < 8; w++) {
    for (int k = 0; k < 4; k++) {
      h[w][k] = fu(w, 6 * k + 6, 6);
    }
    rest(w, 24);
  }
  static almanac_health_t a;
  memset(&a, 0x5a, sizeof a);
  const bool ok = almanac_decode_health(vp_w, &a);
  const bool p4 = id == 1 && sv == 63, p5 = id == 1 && sv == 51;
  CHECK(ok == (p4 || p5), "accepted exactly for the two health pages");
  CHECK(a.health_bits_valid == (p4 ? 0xff000000u : p5 ? 0xffffffu : 0u), "mask of the satellites in the page");
  for (int s = 1; s <= 32; s++) {
    uint32_t want = 0;
    if (p5 && s <= 24) {
      want = h[1 + (s - 1) / 4][(s - 1) % 4];
    }
    if (p4 && s >= 25) {
      want = s == 25 ? h[5][3] : h[6 + (s - 26) / 4][(s - 26) % 4];
    }
    CHECK(a.health_bits[s - 1] == want, "each satellite's own health bits, zero elsewhere");
  }
  WITNESS("page 25 of subframe 4", p4 && h[7][2] == 63);
  WITNESS("page 25 of subframe 5", p5);
}
#endif
