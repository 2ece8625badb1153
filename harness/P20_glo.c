/* GLONASS time is UTC + 3 h, counted in days of four-year periods from 1996. */
#include "vpcal.h"
#define TOL 1e-4
#define GLO0 5839 /* 1 January 1996, days since 6 January 1980 */
#if PART == 1 /* every GLONASS time of a four-year period */
void harness(void) {
  glo_time_t g;
  g.n4 = N4;
  const int32_t nt = vp_srange(NTLO, NTHI);
  g.nt = (uint16_t)nt;
  g.h = (uint8_t)PICK(vp_srange(0, 23));
  g.m = (uint8_t)vp_range(0, 59);
  g.s = vp_dbl(0, 61);
  const int32_t day = GLO0 + 1461 * (N4 - 1) + nt - 1;
  const int32_t n = g.h < 3 ? day - 1 : day; /* UTC day */
  const leaps_t l = leaps_of(n);
  const bool sixty = g.s >= 60;
  ASSUME(!sixty || (l.leap && g.h == 2 && g.m == 59)); /* second 60 only at the end of a UTC day that has one */
  const double sod = (g.h < 3 ? g.h + 21 : g.h - 3) * 3600.0 + g.m * 60.0 + g.s;
  gps_time_t t = gps_of(n, sod, l.count);
  utc_params_t p;
  const utc_params_t *pp = NULL;
#ifdef PARAMS
  memset(&p, 0, sizeof p);
  p.tot = gps_of(day, 0, 0);
  /* the parameters of the moment: the current count; an event announced for the day itself, or a past one */
  p.dt_ls = (int8_t)l.count;
  p.dt_lsf = (int8_t)(l.leap ? l.count + 1 : l.count);
  p.t_lse = gps_of(l.leap ? n + 1 : n - 700, 0, l.count);
  pp = &p;
#endif
  (void)p;
  const gps_time_t got = glo2gps(&g, pp);
  CHECK(got.wn == t.wn, "GLONASS time is UTC plus three hours: week");
  CHECK_EQ(got.tow, t.tow, TOL, "GLONASS time is UTC plus three hours: second");
#ifndef TO_GPS
  const glo_time_t b = gps2glo(&t, pp);
  CHECK(b.n4 == N4, "four-year period");
  CHECK(b.nt == nt, "day of the period");
  CHECK(b.h < 24 && b.m < 60 && b.s >= 0 && (sixty ? b.s < 61 : b.s < 60), "fields in range");
  CHECK_EQ(b.h * 3600.0 + b.m * 60.0 + b.s, g.h * 3600.0 + g.m * 60.0 + g.s, TOL, "time of day");
#endif
  WITNESS("an instant", g.h == 3 && g.m == 0);
}
#elif PART == 2 /* fields out of range */
void harness(void) {
  glo_time_t g;
  g.n4 = vp_u8();
  g.nt = vp_u16();
  ASSUME(g.n4 < 1 || g.n4 > 31 || g.nt < 1 || g.nt > 1461);
  g.h = (uint8_t)vp_range(0, 31);
  g.m = (uint8_t)vp_range(0, 63);
  g.s = vp_dbl(0, 61);
  const gps_time_t t = glo2gps(&g, NULL);
  CHECK(t.wn == WN_UNKNOWN && t.tow == TOW_UNKNOWN, "fields out of range give the unknown time");
  WITNESS("day 0", g.n4 == 7 && g.nt == 0);
}
#elif PART == 3 /* day of the year */
void harness(void) {
  const day_t x = vp_day(CENT, YEAR, QLO, QHI);
  const leaps_t l = leaps_of(x.n);
  const double sod = vp_dbl(0, 86400);
  const gps_time_t t = gps_of(x.n, sod, l.count);
  CHECK(gps2doy(&t) == x.doy, "day of the year");
  WITNESS("day 60", x.doy == 60);
}
#endif
