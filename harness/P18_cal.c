/* Calendar conversions: stated as the successor relation of the Gregorian calendar from a known date, so that by
 * induction every day of the range is right. */
#include "vptime.h"
#define TOL 1e-4 /* seconds */
static bool leap(int32_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int32_t mlen(int32_t y, int32_t m) {
  static const uint8_t len[13] = {0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return len[m] + ((m == 2 && leap(y)) ? 1 : 0);
}
#if PART == 0 /* leap years, month lengths */
void harness(void) {
  uint16_t y = vp_u16();
  CHECK(is_leap_year(y) == leap(y), "Gregorian leap year rule");
  uint8_t m = vp_u8();
  ASSUME(m >= 1 && m <= 12);
  m = (uint8_t)PICK(m);
  CHECK(days_in_month(y, m) == mlen(y, m), "month length");
  WITNESS("1900", y == 1900 && m == 2);
}
#elif PART == 1 /* date to MJD */
void harness(void) {
  int32_t y = vp_srange(1858, 4000), m = MONTH, d = vp_srange(1, 31), h = vp_srange(0, 23), mi = vp_srange(0, 59);
  ASSUME(d <= mlen(y, m));
  double s = vp_dbl(0, 61);
  CHECK(date2mjd(1980, 1, 6, 0, 0, 0) == 44244 && date2mjd(2000, 1, 1, 12, 0, 0) == 51544.5, "known dates");
  double a = date2mjd(y, m, d, h, mi, s);
  CHECK_EQ((a - date2mjd(y, m, d, 0, 0, 0)) * 86400.0, h * 3600.0 + mi * 60.0 + s, TOL, "the time of day is the fraction");
  if (d < mlen(y, m)) {
    CHECK_EQ(date2mjd(y, m, d + 1, h, mi, s), a + 1, 1e-9, "the next day of the month is one day later");
  } else {
    CHECK_EQ(m < 12 ? date2mjd(y, m + 1, 1, h, mi, s) : date2mjd(y + 1, 1, 1, h, mi, s), a + 1, 1e-9, "the first of the next month is one day later");
  }
  WITNESS("end", d == mlen(y, m) && y == 2000);
}
#elif PART == 2 || PART == 4 || PART == 5
/* Days as the Gregorian calendar counts them from 1 January 1601: 400-year cycles (A), centuries (C), four-year blocks (q), years (YEAR),
 * day of the year (doy). */
#define N1601 138431 /* from 1 January 1601 to 6 January 1980 */
typedef struct {
  int32_t n, year, doy; /* n: days since 6 January 1980 */
  bool ly;
} day_t;
static day_t day(void) {
  const int32_t c = CENT % 4, a = CENT / 4;
  const int32_t q = PICK(vp_srange(QLO, QHI));
  day_t x;
  x.ly = YEAR == 3 && (q < 24 || c == 3);
  x.doy = vp_srange(0, x.ly ? 365 : 364);
  x.year = 1601 + 400 * a + 100 * c + 4 * q + YEAR;
  x.n = 146097 * a + 36524 * c + 1461 * q + 365 * YEAR + x.doy - N1601;
  return x;
}
static void check_date(const day_t *x, int32_t y, int32_t m, int32_t d) {
  static const uint16_t cum[13] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365};
  CHECK(y == x->year, "year");
  m = PICK(m);
  CHECK(m >= 1 && m <= 12, "month 1 to 12");
  const int32_t before = cum[m - 1] + (x->ly && m > 2 ? 1 : 0), upto = cum[m] + (x->ly && m > 1 ? 1 : 0);
  CHECK(x->doy >= before && x->doy < upto, "month");
  CHECK(d == x->doy - before + 1, "day of the month");
}
void harness(void) {
  const day_t x = day();
#if PART == 2 /* MJD to date */
  int32_t y, m, d, h, mi;
  double s;
  mjd2date(x.n + 44244.0, &y, &m, &d, &h, &mi, &s);
  CHECK(h == 0 && mi == 0, "a whole day is midnight");
  CHECK_EQ(s, 0, TOL, "a whole day is midnight to the second");
  check_date(&x, y, m, d);
  WITNESS("last day", m == 12 && d == 31);
#else
  ASSUME(x.n >= 0 && x.n < 7 * 32768);
#ifdef FREE_SOD
  const double sod = vp_dbl(0.001, 86399.999);
#else
  const double sod = 43210.5;
#endif
  gps_time_t t;
  t.wn = (int16_t)(x.n / 7);
  const int32_t dow = x.n % 7;
  t.tow = dow * 86400.0 + sod;
  utc_tm u;
#if PART == 4 /* broken-down time of every GPS day */
  make_utc_tm(&t, &u);
#else
  u = mjd2utc(x.n + 44244.0 + sod / 86400.0);
#endif
  check_date(&x, u.year, u.month, u.month_day);
  CHECK(u.year_day == x.doy + 1, "day of the year");
  CHECK(u.week_day == (dow == 0 ? 7 : dow), "weekday");
  CHECK(u.hour < 24 && u.minute < 60 && u.second_int < 60 && u.second_frac >= 0 && u.second_frac < 1, "time of day fields in range");
  CHECK_EQ(u.hour * 3600.0 + u.minute * 60.0 + u.second_int + u.second_frac, sod, TOL, "time of day fields add up to the second of the day");
  WITNESS("last day", u.month == 12 && u.month_day == 31);
#endif
}
#elif PART == 3 /* time of day of an MJD */
void harness(void) {
  int32_t n = vp_srange(-10000, 200000);
  int32_t h = vp_srange(0, 23), mi = vp_srange(0, 59);
  double s = vp_dbl(0.001, 59.999);
  int32_t y, m, d, h2, m2, y0, m0, d0, h0, mi0;
  double s2, s0;
  ASSUME(n >= 0);
  double mjd = n + h / 24.0 + mi / 1440.0 + s / 86400.0;
  mjd2date(mjd, &y, &m, &d, &h2, &m2, &s2);
  mjd2date((double)n, &y0, &m0, &d0, &h0, &mi0, &s0);
  CHECK(y == y0 && m == m0 && d == d0, "the fraction does not change the day");
  CHECK(h2 == h && m2 == mi, "hour and minute");
  CHECK_EQ(s2, s, TOL, "second");
  WITNESS("noon", h == 12 && mi == 34);
}
#elif PART == 6 /* fields of a date and time, any date */
void harness(void) {
  utc_tm u;
  memset(&u, 0, sizeof u);
  u.year = (uint16_t)vp_range(1859, 4000);
  u.month = MONTH;
  u.month_day = (uint8_t)vp_range(1, 31);
  u.hour = (uint8_t)vp_range(0, 23);
  u.minute = (uint8_t)vp_range(0, 59);
  u.second_int = (uint8_t)vp_range(0, 60);
  u.second_frac = vp_dbl(0, 1);
  ASSUME(u.month_day <= mlen(u.year, u.month));
  CHECK_EQ(utc2mjd(&u), date2mjd(u.year, u.month, u.month_day, u.hour, u.minute, u.second_int + u.second_frac), 1e-9, "utc2mjd is the MJD of the fields");
  int32_t y, m, d, h, mi;
  double s;
  utc2date(&u, &y, &m, &d, &h, &mi, &s);
  CHECK(y == u.year && m == u.month && d == u.month_day && h == u.hour && mi == u.minute, "utc2date keeps the fields");
  CHECK_EQ(s, u.second_int + u.second_frac, 1e-9, "utc2date keeps the seconds");
  WITNESS("today", u.year == 2024);
}
#endif
