/* The Gregorian calendar and the published leap seconds, as an oracle. */
#ifndef VPCAL_H
#define VPCAL_H
#include "vptime.h"
#define N1601 138431 /* days from 1 January 1601 to 6 January 1980 */
typedef struct {
  int32_t n, year, doy; /* n: days since 6 January 1980; doy: from 0 */
  bool ly;
} day_t;
/* a day of year 1601 + 100*CENT + 4*q + YEAR, q in QLO..QHI */
static inline day_t vp_day(int32_t cent, int32_t yr, int32_t qlo, int32_t qhi) {
  const int32_t c = cent % 4, a = cent / 4;
  const int32_t q = PICK(vp_srange(qlo, qhi));
  day_t x;
  x.ly = yr == 3 && (q < 24 || c == 3);
#ifdef DOYLO
  x.doy = vp_srange(DOYLO, (x.ly ? 365 : 364) < DOYHI ? (x.ly ? 365 : 364) : DOYHI);
#else
  x.doy = vp_srange(0, x.ly ? 365 : 364);
#endif
  x.year = 1601 + 400 * a + 100 * c + 4 * q + yr;
  x.n = 146097 * a + 36524 * c + 1461 * q + 365 * yr + x.doy - N1601;
  return x;
}
static inline void check_date(const day_t *x, int32_t y, int32_t m, int32_t d) {
  static const uint16_t cum[13] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365};
  CHECK(y == x->year, "year");
  m = PICK(m);
  CHECK(m >= 1 && m <= 12, "month 1 to 12");
  const int32_t before = cum[m - 1] + (x->ly && m > 2 ? 1 : 0), upto = cum[m] + (x->ly && m > 1 ? 1 : 0);
  CHECK(x->doy >= before && x->doy < upto, "month");
  CHECK(d == x->doy - before + 1, "day of the month");
}
/* the days that ended with an inserted second (30 June or 31 December), as days since 6 January 1980 */
#define JUN30(y, leaps) (365 * ((y) - 1980) + (leaps) + 180 - 5)
#define DEC31(y, leaps) (365 * ((y) - 1980) + (leaps) + 364 - 5)
/* second argument: leap days from 1980 up to that date */
static const int32_t LEAPDAY[18] = {JUN30(1981, 1), JUN30(1982, 1), JUN30(1983, 1), JUN30(1985, 2), DEC31(1987, 2), DEC31(1989, 3), DEC31(1990, 3), JUN30(1992, 4), JUN30(1993, 4),
                                    JUN30(1994, 4), DEC31(1995, 4), JUN30(1997, 5), DEC31(1998, 5), DEC31(2005, 7), DEC31(2008, 8), JUN30(2012, 9), JUN30(2015, 9), DEC31(2016, 10)};
typedef struct {
  int32_t count; /* GPS - UTC on day n */
  bool leap;     /* day n ends with an inserted second */
} leaps_t;
static inline leaps_t leaps_of(int32_t n) {
  leaps_t l = {0, false};
  for (int i = 0; i < 18; i++) {
    l.count += n > LEAPDAY[i] ? 1 : 0;
    if (n == LEAPDAY[i]) {
      l.leap = true;
    }
  }
  return l;
}
/* GPS time of second of day `sod` of UTC day n, off = GPS - UTC */
static inline gps_time_t gps_of(int32_t n, double sod, int32_t off) {
  gps_time_t t;
  double s = sod + off;
  if (s >= 86400.0) {
    n += 1;
    s -= 86400.0;
  } else if (s < 0) {
    n -= 1;
    s += 86400.0;
  }
  t.wn = (int16_t)(n / 7);
  t.tow = (n % 7) * 86400.0 + s;
  return t;
}
#endif
