/* Galileo I/NAV words 1 to 5: every parameter is its interface-document bit field times its scale. */
#include <swiftnav/ephemeris.h>
#include "vpnav.h"
#define PI 3.1415926535898
static uint8_t page[5][GAL_INAV_CONTENT_BYTE];
static uint8_t taken[5][8 * GAL_INAV_CONTENT_BYTE];
/* the field's bits are free; returns its value */
static inline double ub(int p, int first, int width) {
  double v = 0;
  for (int i = first; i < first + width; i++) {
    const uint32_t b = vp_range(0, 1);
    page[p][i / 8] = (uint8_t)(page[p][i / 8] + (b << (7 - i % 8)));
    taken[p][i] = 1;
    v = v * 2 + b;
  }
  return v;
}
static inline double sb(int p, int first, int width) {
  const double s = ub(p, first, 1);
  return ub(p, first + 1, width - 1) - s * p2(width - 1);
}
static float sisa_m(uint32_t i) {
  return i < 50 ? i * 0.01f : i < 75 ? 0.5f + (i - 50) * 0.02f : i < 100 ? 1.0f + (i - 75) * 0.04f : i < 126 ? 2.0f + (i - 100) * 0.16f : i < 255 ? 6.0f /* spare */ : -1.0f;
}
void harness(void) {
  const double iod = ub(0, 6, 10), toe = ub(0, 16, 14), m0 = sb(0, 30, 32), ecc = ub(0, 62, 32), sqrta = ub(0, 94, 32);
  const double omega0 = sb(1, 16, 32), i0 = sb(1, 48, 32), w = sb(1, 80, 32), idot = sb(1, 112, 14);
  const double omegadot = sb(2, 16, 24), dn = sb(2, 40, 16), cuc = sb(2, 56, 16), cus = sb(2, 72, 16), crc = sb(2, 88, 16), crs = sb(2, 104, 16);
  const double sat = ub(3, 16, 6), cic = sb(3, 22, 16), cis = sb(3, 38, 16), toc = ub(3, 54, 14), af0 = sb(3, 68, 31), af1 = sb(3, 99, 21), af2 = sb(3, 120, 6);
  const double bgd5a = sb(4, 47, 10), bgd5b = sb(4, 57, 10);
#if PART == 4
  const double hs5b = ub(4, 67, 2), hs1b = ub(4, 69, 2);
  const double sisa = 7;
  page[2][15] = 7;
#elif PART == 3
  const double hs5b = 0, hs1b = 0;
  const double sisa = ub(2, 120, 8);
#else
  const double hs5b = 0, hs1b = 0, sisa = 107;
  page[2][15] = 107;
#endif
  memset(&taken[4][67], 1, 4);
  memset(&taken[2][120], 1, 8);
  const double wn = ub(4, 73, 12), tow = ub(4, 85, 20);
  /* everything else in the pages is free as well */
  for (int p = 0; p < 5; p++) {
    for (int i = 0; i < 8 * GAL_INAV_CONTENT_BYTE; i++) {
      if (!taken[p][i]) {
        ub(p, i, 1);
      }
    }
  }
#if PART != 2
  ASSUME(toe * 60 < WD && toc * 60 < WD && tow < WD);
  ASSUME(toe * 60 - tow < WD / 2 && tow - toe * 60 < WD / 2 && toc * 60 - tow < WD / 2 && tow - toc * 60 < WD / 2);
#endif
  ephemeris_t e;
  memset(&e, 0, sizeof e);
  e.sid.code = CODE_GAL_E1B;
  const bool ok = decode_gal_ephemeris_safe(page, &e);
  const ephemeris_kepler_t *k = &e.data.kepler;
#if PART == 2 /* times */
  CHECK_EQ(e.toe.tow, toe * 60, 1e-9, "toe");
  CHECK_EQ(k->toc.tow, toc * 60, 1e-9, "toc");
  if (tow < WD) {
    CHECK(ok == (toe * 60 < WD && toc * 60 < WD), "refused exactly when a reference time is not within the week");
    if (ok) {
      double d = (e.toe.wn - (wn + 2048 - 1024)) * WD + e.toe.tow - tow;
      CHECK(d <= WD / 2 && d >= -WD / 2, "ephemeris reference within half a week of transmission");
      d = (k->toc.wn - (wn + 2048 - 1024)) * WD + k->toc.tow - tow;
      CHECK(d <= WD / 2 && d >= -WD / 2, "clock reference within half a week of transmission");
      CHECK(e.source == EPH_SOURCE_GAL_INAV, "source");
      WITNESS("next week", e.toe.wn == wn + 1025 && k->toc.wn == wn + 1024);
    }
  }
#elif PART == 3
  CHECK_EQ(e.ura, sisa_m((uint32_t)PICK((uint32_t)sisa)), 1e-4, "accuracy");
  WITNESS("last", sisa == 125);
#elif PART == 4
  CHECK((e.valid != 0) == ((hs5b == 0 || hs5b == 2) && (hs1b == 0 || hs1b == 2)), "valid exactly when both signals are in service");
  WITNESS("leaving service", e.valid && hs5b == 2);
#else
  CHECK(ok, "decoded");
  CHECK(k->iode == iod && k->iodc == iod, "issue of data");
  CHECK(e.fit_interval == 4 * 3600, "fit interval");
  CHECK(e.sid.sat == sat && e.sid.code == CODE_GAL_E1B, "satellite");
  CHECK_EQ(k->m0, m0 * p2(-31) * PI, 1e-13, "m0");
  CHECK_EQ(k->ecc, ecc * p2(-33), 1e-13, "ecc");
  CHECK_EQ(k->sqrta, sqrta * p2(-19), 1e-10, "sqrta");
  CHECK_EQ(k->omega0, omega0 * p2(-31) * PI, 1e-13, "omega0");
  CHECK_EQ(k->inc, i0 * p2(-31) * PI, 1e-13, "i0");
  CHECK_EQ(k->w, w * p2(-31) * PI, 1e-13, "omega");
  CHECK_EQ(k->inc_dot, idot * p2(-43) * PI, 1e-17, "idot");
  CHECK_EQ(k->omegadot, omegadot * p2(-43) * PI, 1e-17, "omegadot");
  CHECK_EQ(k->dn, dn * p2(-43) * PI, 1e-17, "dn");
  CHECK_EQ(k->cuc, cuc * p2(-29), 1e-13, "cuc");
  CHECK_EQ(k->cus, cus * p2(-29), 1e-13, "cus");
  CHECK_EQ(k->crc, crc * p2(-5), 1e-9, "crc");
  CHECK_EQ(k->crs, crs * p2(-5), 1e-9, "crs");
  CHECK_EQ(k->cic, cic * p2(-29), 1e-13, "cic");
  CHECK_EQ(k->cis, cis * p2(-29), 1e-13, "cis");
  CHECK_EQ(k->af0, af0 * p2(-34), 1e-16, "af0");
  CHECK_EQ(k->af1, af1 * p2(-46), 1e-20, "af1");
  CHECK_EQ(k->af2, af2 * p2(-59), 1e-24, "af2");
  CHECK_EQ(k->tgd.gal_s[0], bgd5a * p2(-32), 1e-15, "bgd E1/E5a");
  CHECK_EQ(k->tgd.gal_s[1], bgd5b * p2(-32), 1e-15, "bgd E1/E5b");
  WITNESS("negative", af0 == -1 && bgd5b == -512);
#endif
}
