/* GPS LNAV subframes 1 to 3: every parameter is its IS-GPS-200 bit field times its scale. */
#include <swiftnav/ephemeris.h>
#include "vpnav.h"
#define SF(s, w) (8 * ((s) - 1) + (w) - 3)
/* 8 bits at the end of one word and 24 of the next */
#define S32(s, w) ((double)fs(SF(s, w), 24, 8) * 16777216.0 + fu(SF(s, (w) + 1), 24, 24))
#define U32(s, w) ((double)fu(SF(s, w), 24, 8) * 16777216.0 + fu(SF(s, (w) + 1), 24, 24))
#define PI 3.1415926535898 /* the value IS-GPS-200 prescribes */
static uint32_t fit(uint32_t flag, uint32_t iodc) {
  if (!flag) {
    return 4;
  }
  return iodc >= 240 && iodc <= 247 ? 8
         : (iodc >= 248 && iodc <= 255) || iodc == 496 ? 14
         : (iodc >= 497 && iodc <= 503) || (iodc >= 1021 && iodc <= 1023) ? 26
         : iodc >= 504 && iodc <= 510 ? 50
         : iodc == 511 || (iodc >= 752 && iodc <= 756) ? 74
         : iodc == 757 ? 98
                       : 6;
}
static const float URA[16] = {2.0f, 2.8f, 4.0f, 5.7f, 8.0f, 11.3f, 16.0f, 32.0f, 64.0f, 128.0f, 256.0f, 512.0f, 1024.0f, 2048.0f, 4096.0f, 6144.0f};
void harness(void) {
  for (int w = 0; w < 24; w++) {
    vp_w[w] = 0;
  }
  /* subframe 1 */
  const uint32_t wn = fu(SF(1, 3), 10, 10);
  fu(SF(1, 3), 12, 2);
  const uint32_t ura = fu(SF(1, 3), 16, 4), health = fu(SF(1, 3), 22, 6), iodc_h = fu(SF(1, 3), 24, 2);
  const int32_t tgd = fs(SF(1, 7), 24, 8);
  fu(SF(1, 7), 16, 16);
  const uint32_t iodc_l = fu(SF(1, 8), 8, 8), toc = fu(SF(1, 8), 24, 16);
  const int32_t af2 = fs(SF(1, 9), 8, 8), af1 = fs(SF(1, 9), 24, 16), af0 = fs(SF(1, 10), 22, 22);
  fu(SF(1, 10), 24, 2);
  fu(SF(1, 4), 24, 24), fu(SF(1, 5), 24, 24), fu(SF(1, 6), 24, 24);
  /* subframe 2 */
  const uint32_t iode2 = fu(SF(2, 3), 8, 8);
  const int32_t crs = fs(SF(2, 3), 24, 16), dn = fs(SF(2, 4), 16, 16);
  const double m0 = S32(2, 4);
  const int32_t cuc = fs(SF(2, 6), 16, 16);
  const double ecc = U32(2, 6);
  const int32_t cus = fs(SF(2, 8), 16, 16);
  const double sqrta = U32(2, 8);
  const uint32_t toe = fu(SF(2, 10), 16, 16), fitf = fu(SF(2, 10), 17, 1);
  fu(SF(2, 10), 24, 7);
  /* subframe 3 */
  const int32_t cic = fs(SF(3, 3), 16, 16);
  const double omega0 = S32(3, 3);
  const int32_t cis = fs(SF(3, 5), 16, 16);
  const double i0 = S32(3, 5);
  const int32_t crc = fs(SF(3, 7), 16, 16);
  const double w = S32(3, 7);
  const int32_t omegadot = fs(SF(3, 9), 24, 24);
  const uint32_t iode3 = fu(SF(3, 10), 8, 8);
  const int32_t idot = fs(SF(3, 10), 22, 14);
  fu(SF(3, 10), 24, 2);
  for (int k = 0; k < 24; k++) {
    rest(k, 24);
  }
  const uint32_t ref = vp_range(1, 30000);
  const double tot = vp_dbl(0, WD);
#if PART != 3
  ASSUME(!fitf);
#endif
#if PART != 4
  ASSUME(ura == 0 || ura == 7);
#endif
#if PART == 2
  ASSUME(iode2 == iode3 && iode3 == iodc_l);
#endif
#if PART >= 3
  ASSUME(toe < 37800 && toc < 37800);
#endif
  ephemeris_t e;
  memset(&e, 0x5a, sizeof e);
  e.sid.code = QZS ? CODE_QZS_L1CA : CODE_GPS_L1CA;
  e.sid.sat = QZS ? 193 : 1;
  const gnss_signal_t sid = e.sid;
  decode_ephemeris_with_wn_ref((const u32(*)[8])vp_w, &e, tot, (uint16_t)ref);
  const ephemeris_kepler_t *k = &e.data.kepler;
  const uint32_t iodc = iodc_h * 256 + iodc_l;
  const bool toe_ok = toe * 16 < W, toc_ok = toc * 16 < W;
#if PART == 1 /* identification, times, flags */
  CHECK((e.valid != 0) == (iode2 == iode3 && iode3 == iodc_l && toe_ok && toc_ok), "valid exactly when the issue numbers agree and the reference times are within the week");
  CHECK(k->iodc == iodc && k->iode == iode3, "issue of data");
  CHECK(e.sid.code == sid.code && e.sid.sat == sid.sat, "signal untouched");
  CHECK(e.health_bits == health, "health");
  CHECK(e.source == EPH_SOURCE_GPS_LNAV, "source");
  CHECK(e.fit_interval == 4 * 3600, "fit interval");
  CHECK_EQ(e.toe.tow, toe * 16.0, 1e-9, "toe");
  CHECK_EQ(k->toc.tow, toc * 16.0, 1e-9, "toc");
  if (toe_ok) {
    const int32_t full = wn >= ref ? (int32_t)wn : (int32_t)(wn + 1024 * ((ref + 1023 - wn) / 1024));
    const double d = (e.toe.wn - full) * WD + e.toe.tow - tot;
    CHECK(d <= WD / 2 && d >= -WD / 2, "the ephemeris is within half a week of its transmission");
    CHECK(k->toc.wn == e.toe.wn, "clock reference week");
    WITNESS("next week", e.toe.wn == full + 1);
  }
#elif PART == 3
  CHECK(e.fit_interval == fit(fitf, iodc) * 3600, "fit interval");
  WITNESS("74 hours", e.fit_interval == 74 * 3600);
#elif PART == 4
  CHECK_EQ(e.ura, URA[PICK(ura)], 1e-9, "accuracy");
  WITNESS("last", ura == 15);
#else /* parameters */
  CHECK_EQ(k->tgd.gps_s[0], tgd * p2(-31), 1e-13, "tgd");
  CHECK_EQ(k->tgd.gps_s[1], 0, 1e-13, "tgd of L5");
  CHECK_EQ(k->af2, af2 * p2(-55), 1e-23, "af2");
  CHECK_EQ(k->af1, af1 * p2(-43), 1e-19, "af1");
  CHECK_EQ(k->af0, af0 * p2(-31), 1e-15, "af0");
  CHECK_EQ(k->crs, crs * p2(-5), 1e-9, "crs");
  CHECK_EQ(k->dn, dn * p2(-43) * PI, 1e-17, "dn");
  CHECK_EQ(k->m0, m0 * p2(-31) * PI, 1e-13, "m0");
  CHECK_EQ(k->cuc, cuc * p2(-29), 1e-13, "cuc");
  CHECK_EQ(k->ecc, ecc * p2(-33), 1e-13, "ecc");
  CHECK_EQ(k->cus, cus * p2(-29), 1e-13, "cus");
  CHECK_EQ(k->sqrta, sqrta * p2(-19), 1e-10, "sqrta");
  CHECK_EQ(k->cic, cic * p2(-29), 1e-13, "cic");
  CHECK_EQ(k->omega0, omega0 * p2(-31) * PI, 1e-13, "omega0");
  CHECK_EQ(k->cis, cis * p2(-29), 1e-13, "cis");
  CHECK_EQ(k->inc, i0 * p2(-31) * PI, 1e-13, "i0");
  CHECK_EQ(k->crc, crc * p2(-5), 1e-9, "crc");
  CHECK_EQ(k->w, w * p2(-31) * PI, 1e-13, "omega");
  CHECK_EQ(k->omegadot, omegadot * p2(-43) * PI, 1e-17, "omegadot");
  CHECK_EQ(k->inc_dot, idot * p2(-43) * PI, 1e-17, "idot");
  WITNESS("negative", af0 == -1 && omegadot == -8388608);
#endif
}
