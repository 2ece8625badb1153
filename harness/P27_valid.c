/* Status and validity window of an ephemeris, validity of an almanac. */
#include <swiftnav/almanac.h>
#include <swiftnav/ephemeris.h>
#include <swiftnav/shm.h>
#include "vptime.h"
static bool bad_iod(const ephemeris_t *e) {
  const uint32_t c = e->data.kepler.iodc, o = e->data.kepler.iode;
#if KIND == 0 || KIND == 2 /* GPS, QZSS */
  return c > 1023 || o > 255 || c % 256 != o;
#elif KIND == 3 /* BeiDou */
  return e->source == EPH_SOURCE_BDS_D1_D2_NAV ? c > 240 || o > 240 : c > 1023 || o > 255 || c % 256 != o;
#elif KIND == 4 /* Galileo */
  return c > 1023 || c != o;
#elif KIND == 1 /* GLONASS */
  return e->data.glo.iod > 127;
#else
  return false;
#endif
}
static bool healthy(const ephemeris_t *e) {
#if KIND == 0
  return e->ura >= 0 && e->ura <= 6144 && check_6bit_health_word(e->health_bits, e->sid.code);
#elif KIND == 2 || KIND == 5
  return e->health_bits == 0;
#else
  return e->ura >= 0 && e->health_bits == 0;
#endif
}
void harness(void) {
#ifdef ALMANAC
  almanac_t a;
  memset(&a, 0, sizeof a);
  a.sid.code = CODE;
  a.sid.sat = 1;
  a.valid = (uint8_t)vp_range(0, 1);
  a.health_bits = (uint8_t)PICK((uint32_t)vp_srange(HLO, HLO + 15));
  a.fit_interval = 2 * vp_range(0, 6 * 7 * 86400);
  a.toa.wn = (int16_t)vp_srange(0, 8000);
  a.toa.tow = vp_dbl(0, WD);
  gps_time_t t = vp_time(0, 8000);
  const double age = span(&t, &a.toa), half = a.fit_interval / 2;
  /* IS-GPS-200 table 20-VII: of the data health in the three most significant bits, errors in the TLM/HOW words (2), the
   * Z-count (3) and subframes 1 to 3 (4) do not touch the almanac */
  const uint32_t top = a.health_bits >> 5;
  const bool h = (top == 0 || (top >= 2 && top <= 4)) && check_6bit_health_word(a.health_bits & 0x1f, CODE);
  CHECK((almanac_healthy(&a) != 0) == h, "almanac health");
  const bool want = a.valid && h && a.fit_interval != 0 && a.toa.wn != 0 && age <= half && -age <= half;
  CHECK((almanac_valid(&a, &t) != 0) == want, "almanac valid exactly when marked valid, healthy, stamped and within half a fit interval");
#if HLO < 32 || (HLO >= 64 && HLO < 160)
  WITNESS("edge", age == half && want);
#endif
#else
  ephemeris_t e;
  memset(&e, 0, sizeof e);
  e.sid.code = CODE;
  e.sid.sat = 1;
#ifdef STATUS
  e.valid = (uint8_t)vp_range(0, 1);
  e.toe.wn = (int16_t)vp_srange(-1, 4000);
  e.toe.tow = 1000;
  e.fit_interval = vp_u32();
  e.health_bits = (uint8_t)(KIND == 0 ? (uint32_t)PICK((uint32_t)vp_srange(0, 63)) : vp_range(0, 255));
#if KIND == 0 && !defined(URA)
  e.ura = 3;
#else
  e.ura = (float)vp_dbl(-2, 10000);
#endif
#ifdef URA
  ASSUME(e.health_bits == 0 && e.valid && e.toe.wn > 0 && e.fit_interval != 0);
#endif
  e.source = (uint8_t)(KIND == 3 ? PICK(vp_srange(0, 5)) : 0);
#if KIND == 1
  e.data.glo.iod = vp_u8();
#else
  e.data.kepler.iodc = vp_u16();
  e.data.kepler.iode = vp_u16();
#endif
  const ephemeris_status_t st = get_ephemeris_status_t(&e);
  const ephemeris_status_t want = !e.valid                                 ? EPH_INVALID
                                  : e.toe.wn == 0                          ? EPH_WN_EQ_0
                                  : e.fit_interval == 0                    ? EPH_FIT_INTERVAL_EQ_0
                                  : (CODE < 0 || CODE >= CODE_COUNT)       ? EPH_INVALID_SID
                                  : !healthy(&e)                           ? EPH_UNHEALTHY
                                  : bad_iod(&e)                            ? EPH_INVALID_IOD
                                                                           : EPH_VALID;
  CHECK(st == want, "first reason that applies");
  CHECK(get_ephemeris_status_t(NULL) == EPH_NULL, "missing");
  if (CODE >= 0 && CODE < CODE_COUNT) {
    CHECK(ephemeris_healthy(&e, CODE) == (!e.valid || healthy(&e)), "healthy");
    WITNESS("bad issue number", st == EPH_INVALID_IOD || KIND == 5);
  } else {
    WITNESS("invalid signal", st == EPH_INVALID_SID);
  }
#else
  e.valid = 1;
  e.source = KIND == 3 ? EPH_SOURCE_BDS_D1_D2_NAV : EPH_SOURCE_GPS_LNAV;
  e.fit_interval = 2 * vp_range(1, 7 * 86400);
  const gps_time_t toe0 = vp_time(2, 4000);
  gps_time_t t = vp_time(1, 4000);
  e.toe = toe0;
#if UNKNOWN == 1
  t.wn = WN_UNKNOWN;
#endif
#if KIND == 1
  const bool clock = true;
  const double since = 0;
#elif KIND != 5
  /* the clock reference time, apart from the ephemeris reference time */
  e.data.kepler.toc = vp_time(0, 4000);
  const double since = span(&e.data.kepler.toc, &toe0);
#endif
  double age = span(&t, &toe0);
#if UNKNOWN
  const double d = t.tow - toe0.tow;
  age = d > WD / 2 ? d - WD : d < -WD / 2 ? d + WD : d;
#endif
  const double fit = e.fit_interval;
#if KIND == 5
  const bool want = true;
#elif KIND == 0 || KIND == 2
  const bool clock = e.data.kepler.toc.wn != 0 && since <= fit / 2 && -since <= fit / 2;
  const bool want = clock && age <= fit / 2 && -age <= fit / 2;
#elif KIND == 1
  const bool want = clock && since == 0 && age <= fit / 2 && -age <= fit / 2;
#else
  const bool clock = e.data.kepler.toc.wn != 0 && since >= 0 && since <= fit;
  const bool want = clock && age >= 0 && age <= fit;
#endif
  CHECK((ephemeris_valid(&e, &t) != 0) == want, "valid exactly within its window");
  CHECK(ephemeris_valid_detailed(&e, &t) == (want ? EPH_VALID : EPH_TOO_OLD), "status");
  CHECK(ephemeris_valid(NULL, &t) == 0 && ephemeris_valid(&e, NULL) == 0, "missing");
  WITNESS("edge", want && (KIND == 5 || age == (KIND == 3 || KIND == 4 ? fit : fit / 2)));
#endif
#endif
}
