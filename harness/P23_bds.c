/* BeiDou D1 subframes 1 to 3: every parameter is its interface-document bit field times its scale.
 * Words are 30 bits: 22 of content and 8 of parity, except the first. */
#include <swiftnav/ephemeris.h>
#include "vpnav.h"
#define W_(s, w) (10 * ((s) - 1) + (w) - 1)
/* a field of h bits at the end of the content of a word and l bits at the start of the next */
#define SS(s, w, h, l) ((double)fs(W_(s, w), 22, h) * (double)(1u << (l)) + fu(W_(s, (w) + 1), l, l))
#define SU(s, w, h, l) ((double)fu(W_(s, w), 22, h) * (double)(1u << (l)) + fu(W_(s, (w) + 1), l, l))
#define PI 3.1415926535898
static const float URA[16] = {2.0f, 2.8f, 4.0f, 5.7f, 8.0f, 11.3f, 16.0f, 32.0f, 64.0f, 128.0f, 256.0f, 512.0f, 1024.0f, 2048.0f, 4096.0f, -1.0f /* no prediction */};
void harness(void) {
  for (int w = 0; w < 30; w++) {
    vp_w[w] = w % 10 == 0 ? vp_u32() : 0;
  }
  /* subframe 1 */
  fu(W_(1, 2), 12, 12);
  const uint32_t sath1 = fu(W_(1, 2), 13, 1);
  fu(W_(1, 2), 18, 5);
  const uint32_t urai = fu(W_(1, 2), 22, 4), wn = fu(W_(1, 3), 13, 13);
  const uint32_t toc = fu(W_(1, 3), 22, 9) * 256 + fu(W_(1, 4), 8, 8);
  const int32_t tgd1 = fs(W_(1, 4), 18, 10);
  const double tgd2 = SS(1, 4, 4, 6);
  fu(W_(1, 5), 22, 16);
  fu(W_(1, 6), 22, 22), fu(W_(1, 7), 22, 22), fu(W_(1, 8), 4, 4);
  const int32_t a2 = fs(W_(1, 8), 15, 11);
  const double a0 = SS(1, 8, 7, 17), a1 = SS(1, 9, 5, 17);
  fu(W_(1, 10), 22, 5);
  /* subframe 2 */
  fu(W_(2, 2), 12, 12);
  const double dn = SS(2, 2, 10, 6), cuc = SS(2, 3, 16, 2), m0 = SS(2, 4, 20, 12), ecc = SU(2, 5, 10, 22);
  const int32_t cus = fs(W_(2, 7), 18, 18);
  const double crc = SS(2, 7, 4, 14), crs = SS(2, 8, 8, 10), sqrta = SU(2, 9, 12, 20);
  const uint32_t toe_h = fu(W_(2, 10), 22, 2);
  /* subframe 3 */
  fu(W_(3, 2), 12, 12);
  const uint32_t toe = toe_h * 32768 + fu(W_(3, 2), 22, 10) * 32 + fu(W_(3, 3), 5, 5);
  const double i0 = SS(3, 3, 17, 15), cic = SS(3, 4, 7, 11), omegadot = SS(3, 5, 11, 13), cis = SS(3, 6, 9, 9), idot = SS(3, 7, 13, 1), omega0 = SS(3, 8, 21, 11), w = SS(3, 9, 11, 21);
  fu(W_(3, 10), 22, 1);
  for (int k = 0; k < 30; k++) {
    if (k % 10) {
      rest(k, 22);
    }
  }
#if PART == 2
  ASSUME(urai == 0 || urai == 7);
#endif
  gnss_signal_t sid;
  sid.code = CODE_BDS2_B1;
  sid.sat = (uint16_t)vp_range(1, 63);
  ephemeris_t e;
  memset(&e, 0, sizeof e);
  decode_bds_d1_ephemeris((const u32(*)[10])vp_w, sid, &e);
  const ephemeris_kepler_t *k = &e.data.kepler;
#if PART == 1
  CHECK(e.sid.code == sid.code && e.sid.sat == sid.sat, "signal");
  CHECK(e.health_bits == sath1, "health");
  CHECK(e.source == EPH_SOURCE_BDS_D1_D2_NAV, "source");
  CHECK(e.toe.wn == (int32_t)wn + 1356 && k->toc.wn == (int32_t)wn + 1356, "reference week in GPS weeks");
  CHECK_EQ(e.toe.tow, toe * 8.0, 1e-9, "toe");
  CHECK_EQ(k->toc.tow, toc * 8.0, 1e-9, "toc");
  CHECK(k->iode == toe * 8 / 720 % 240, "issue of data, ephemeris");
  CHECK(k->iodc == toc * 8 / 720 % 240, "issue of data, clock");
  CHECK_EQ(e.ura, URA[PICK(urai)], 1e-3, "accuracy");
  WITNESS("last", urai == 15 && toe == 75599);
#else
  CHECK_EQ(k->tgd.bds_s[0], tgd1 * 1e-10, 1e-13, "tgd1");
  CHECK_EQ(k->tgd.bds_s[1], tgd2 * 1e-10, 1e-13, "tgd2");
  CHECK_EQ(k->af0, a0 * p2(-33), 1e-16, "a0");
  CHECK_EQ(k->af1, a1 * p2(-50), 1e-20, "a1");
  CHECK_EQ(k->af2, a2 * p2(-66), 1e-26, "a2");
  CHECK_EQ(k->dn, dn * p2(-43) * PI, 1e-17, "dn");
  CHECK_EQ(k->cuc, cuc * p2(-31), 1e-14, "cuc");
  CHECK_EQ(k->m0, m0 * p2(-31) * PI, 1e-13, "m0");
  CHECK_EQ(k->ecc, ecc * p2(-33), 1e-13, "ecc");
  CHECK_EQ(k->cus, cus * p2(-31), 1e-14, "cus");
  CHECK_EQ(k->crc, crc * p2(-6), 1e-9, "crc");
  CHECK_EQ(k->crs, crs * p2(-6), 1e-9, "crs");
  CHECK_EQ(k->sqrta, sqrta * p2(-19), 1e-10, "sqrta");
  CHECK_EQ(k->inc, i0 * p2(-31) * PI, 1e-13, "i0");
  CHECK_EQ(k->cic, cic * p2(-31), 1e-14, "cic");
  CHECK_EQ(k->omegadot, omegadot * p2(-43) * PI, 1e-17, "omegadot");
  CHECK_EQ(k->cis, cis * p2(-31), 1e-14, "cis");
  CHECK_EQ(k->inc_dot, idot * p2(-43) * PI, 1e-17, "idot");
  CHECK_EQ(k->omega0, omega0 * p2(-31) * PI, 1e-13, "omega0");
  CHECK_EQ(k->w, w * p2(-31) * PI, 1e-13, "omega");
  WITNESS("negative", a1 == -1 && idot == -8192);
#endif
}
