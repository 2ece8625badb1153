/* UTC: GPS - UTC is the number of seconds inserted so far, and 23:59:60 exists on the days that end with one. */
#include "vpcal.h"
#define TOL 1e-4 /* seconds: MJD doubles resolve about a microsecond */
#if PART == 1 /* no parameters: published table */
void harness(void) {
  const day_t x = vp_day(CENT, YEAR, QLO, QHI);
  ASSUME(x.n >= 0);
  const leaps_t l = leaps_of(x.n);
  const double sod = vp_dbl(0, 86401);
  ASSUME(l.leap || sod < 86400);
  const bool in_leap = sod >= 86400;
  SPLIT(in_leap);
  const gps_time_t t = gps_of(x.n, sod, l.count);
  CHECK(get_gps_utc_offset(&t, NULL) == l.count, "the offset is the number of leap seconds so far");
  CHECK(is_leap_second_event(&t, NULL) == in_leap, "a leap second event is exactly an inserted second");
  utc_tm u;
  gps2utc(&t, &u, NULL);
  check_date(&x, u.year, u.month, u.month_day);
  CHECK(u.year_day == x.doy + 1, "day of the year");
  CHECK(u.week_day == (x.n % 7 == 0 ? 7 : x.n % 7), "weekday");
  CHECK(u.second_frac >= 0 && u.second_frac < 1 && u.hour < 24 && u.minute < 60, "fields in range");
  if (in_leap) {
    CHECK(u.hour == 23 && u.minute == 59 && u.second_int == 60, "an inserted second is 23:59:60");
    CHECK_EQ(u.second_frac, sod - 86400, TOL, "fraction of the inserted second");
  } else {
    CHECK(u.second_int < 60, "60 only in a leap second");
    CHECK_EQ(u.hour * 3600.0 + u.minute * 60.0 + u.second_int + u.second_frac, sod, TOL, "UTC time of day");
    const time_t ut = gps2time(&t);
    CHECK(ut <= 315964800.0 + x.n * 86400.0 + sod + TOL && ut > 315964800.0 + x.n * 86400.0 + sod - 1 - TOL, "Unix time is the whole UTC second");
    const gps_time_t tu = gps_of(x.n, sod, 0);
    CHECK(get_utc_gps_offset(&tu, NULL) == -l.count, "offset from UTC");
  }
  gps_time_t back;
  utc2gps(&u, &back, NULL);
  CHECK_EQ(span(&back, &t), 0, TOL, "UTC to GPS gives the instant back");
  WITNESS("an instant", sod > 1000 && sod < 2000);
}
#elif PART == 2 /* no parameters, offset at any instant */
void harness(void) {
  const gps_time_t t = vp_time(0, 32767);
  int32_t count = 0, event = 0;
  for (int i = 0; i < 18; i++) {
    const double d = t.wn * WD + t.tow - ((LEAPDAY[i] + 1) * 86400.0 + i);
    count += d >= 1 ? 1 : 0;
    event += d >= 0 && d < 1 ? 1 : 0;
  }
  CHECK(get_gps_utc_offset(&t, NULL) == count, "the offset is the number of seconds inserted so far");
  CHECK(is_leap_second_event(&t, NULL) == (event != 0), "an event is exactly an inserted second");
  WITNESS("last", count == 18);
}
#elif PART == 3 /* decoded parameters */
static utc_params_t vp_params(double amax, double a1max) {
  utc_params_t p;
  memset(&p, 0, sizeof p);
  p.a0 = vp_dbl(-amax, amax);
  p.a1 = vp_dbl(-a1max, a1max);
  p.tot = vp_time(1, 8000);
  p.dt_ls = vp_s8();
  p.dt_lsf = vp_s8();
  ASSUME(p.dt_ls >= 0 && p.dt_ls < 100 && p.dt_lsf >= 0 && p.dt_lsf < 100);
  return p;
}
void harness(void) {
  utc_params_t p = vp_params(1, 8e-9);
  p.a2 = vp_dbl(-1e-17, 1e-17);
  p.t_lse = vp_time(1, 8000);
  const gps_time_t t = vp_time(0, 8000);
  const double dt = span(&t, &p.tot), de = span(&t, &p.t_lse);
  SPLIT(de >= 1);
  CHECK_EQ(get_gps_utc_offset(&t, &p), p.a0 + p.a1 * dt + p.a2 * dt * dt + (de >= 1 ? p.dt_lsf : p.dt_ls), 1e-6, "the offset is the polynomial plus the count in force");
  CHECK(is_leap_second_event(&t, &p) == (de >= 0 && de < 1 && p.dt_lsf > p.dt_ls), "an event is the announced inserted second");
  WITNESS("after", de > 1 && p.dt_lsf == 18 && p.dt_ls == 17);
}
#elif PART == 4 /* decoded parameters, announced leap second at the end of a day, instants around it */
void harness(void) {
  const day_t x = vp_day(CENT, YEAR, QLO, QHI); /* the day that ends with the (possible) inserted second */
  const int32_t lsd = x.n;
  ASSUME(lsd >= 7);
  const int32_t ls = vp_srange(0, 40);
  const bool ins = INS;
  utc_params_t p;
  memset(&p, 0, sizeof p);
  p.dt_ls = (int8_t)ls;
  p.dt_lsf = (int8_t)(ls + (ins ? 1 : 0));
  p.tot = gps_of(lsd - 2, 61440.0, 0);
#ifdef POLY
  p.a0 = vp_dbl(-0.4, 0.4);
  p.a1 = POLY;
#endif
  /* as the decoder sets it: the midnight, plus the count and the polynomial */
  const double mid = (lsd + 1) * 86400.0 - (p.tot.wn * WD + p.tot.tow);
  p.t_lse = gps_of(lsd + 1, p.a0 + p.a1 * mid, ls);
  const gps_time_t lse = p.t_lse;
  ASSUME(lse.wn > 0);
  /* an instant within a day of it */
  gps_time_t t = p.t_lse;
#ifdef POLY
  const double d = vp_dbl(-2, 3);
#else
  const double d = vp_dbl(-80000, 80000);
#endif
  add_secs(&t, d);
  ASSUME(t.wn >= 0);
  utc_tm u;
  gps2utc(&t, &u, &p);
  const bool in_leap = ins && d >= 0 && d < 1;
#ifdef POLY /* the polynomial moves the boundaries by less than this */
  ASSUME((d < -1e-6 || d > 1e-6) && (d < 1 - 1e-6 || d > 1 + 1e-6));
#endif
  CHECK((u.second_int == 60) == in_leap, "second 60 is exactly the inserted second");
  CHECK(u.second_int <= 60 && u.minute < 60 && u.hour < 24 && u.second_frac >= 0 && u.second_frac < 1, "fields in range");
  const double sod = u.hour * 3600.0 + u.minute * 60.0 + u.second_int + u.second_frac;
  CHECK_EQ(sod, d < 0 || in_leap ? 86400 + d : d - (ins ? 1 : 0), 1e-3, "time of day counts from the inserted second");
  WITNESS("before", d < -1);
  WITNESS("after", d > 1);
}
#endif
