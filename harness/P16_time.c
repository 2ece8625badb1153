/* GPS time arithmetic. */
#include "vptime.h"
#define TOL 1e-6
#if PART == 0 /* normalisation */
void harness(void) {
  gps_time_t t;
  t.tow = vp_dbl(-2.0 * WD, 3.0 * WD);
  t.wn = vp_s16();
  ASSUME(t.wn > -30000 && t.wn < 30000);
  const gps_time_t t0 = t;
  unsafe_normalize_gps_time(&t);
  CHECK(t.tow >= 0 && t.tow < W, "normalised time of week is in [0, one week)");
  CHECK_EQ(span(&t, &t0), 0.0, TOL, "normalised time is the same instant");
  if (t0.tow >= 0 && t0.tow < W) {
    CHECK(t.tow == t0.tow && t.wn == t0.wn, "a normalised time is left alone");
  }
  gps_time_t u = t0;
  bool ok = normalize_gps_time_safe(&u);
  if (t0.wn < WN_UNKNOWN) {
    CHECK(!ok && u.tow == t0.tow && u.wn == t0.wn, "a week number below unknown is refused");
  } else if (t0.wn == WN_UNKNOWN) {
    CHECK(ok && u.wn == WN_UNKNOWN, "an unknown week number stays unknown");
    CHECK_EQ(u.tow, t.tow, TOL, "and the time of week is normalised");
  } else {
    CHECK(u.wn == t.wn && ok == (t.wn >= 0), "success exactly when the week number is not negative");
    CHECK_EQ(u.tow, t.tow, TOL, "both normalisers agree");
    if (t.wn >= 0) {
      gps_time_t v = t0;
      normalize_gps_time(&v);
      CHECK(v.wn == t.wn, "all normalisers agree");
      CHECK_EQ(v.tow, t.tow, TOL, "all normalisers agree on the time of week");
    }
  }
  WITNESS("two weeks", t.wn == t0.wn + 2 && t0.wn > 5);
}
#elif PART == 1 /* adding and differencing */
void harness(void) {
  gps_time_t t = vp_time(4, 32000);
  const gps_time_t t0 = t;
  double d = vp_dbl(-2.0 * WD, 2.0 * WD);
  add_secs(&t, d);
  CHECK(t.tow >= 0 && t.tow < W, "sum is normalised");
  CHECK_EQ(gpsdifftime(&t, &t0), d, TOL, "difference undoes addition");
  CHECK_EQ(gpsdifftime(&t0, &t), -d, TOL, "difference is antisymmetric");
  const gps_time_t t1 = t;
  add_secs(&t, -d);
  CHECK_EQ(span(&t, &t0), 0.0, TOL, "subtraction undoes addition");
  CHECK(t.tow >= 0 && t.tow < W, "subtraction is normalised");
  WITNESS("week crossing", d > 5 && t0.tow + d >= W + 7 && t0.wn == 1930 && t1.wn == 1931);
}
#elif PART == 2 /* differences of any two valid times */
void harness(void) {
  gps_time_t a = vp_time(-1, 32767), b = vp_time(-1, 32767);
  double d = gpsdifftime(&a, &b);
  CHECK_EQ(d, -gpsdifftime(&b, &a), TOL, "difference is antisymmetric");
  if (a.wn == WN_UNKNOWN || b.wn == WN_UNKNOWN) {
    CHECK_LE(d, W / 2, TOL, "an unknown week number resolves to within half a week");
    CHECK_LE(-W / 2, d, TOL, "an unknown week number resolves to within half a week below");
    const double s = a.tow - b.tow;
    double want = s > W / 2 ? s - W : s < -W / 2 ? s + W : s;
    CHECK_EQ(d, want, TOL, "to the nearest such time of week");
    WITNESS("resolved", d == s + W);
  } else {
    CHECK_EQ(d, span(&a, &b), TOL, "difference is weeks plus seconds");
  }
}
#elif PART == 3 /* week/second difference */
void harness(void) {
#ifdef REALS
  gps_time_t a = vp_time(0, 32767), b = vp_time(0, 32767);
#else
  gps_time_t a = {vp_f64(), vp_s16()}, b = {vp_f64(), vp_s16()};
#endif
  gps_time_duration_t dt = {7, 7};
  bool va = a.tow >= 0 && a.tow < W && a.wn >= 0, vb = b.tow >= 0 && b.tow < W && b.wn >= 0;
  CHECK(gps_time_valid(&a) == va, "valid means a finite time of week in [0, one week) of a known week");
  bool ok = gpsdifftime_week_second(&a, &b, &dt);
  CHECK(ok == (va && vb), "a difference exists exactly between valid times");
  if (!ok) {
    CHECK(dt.weeks == 0 && dt.seconds == 0, "no difference is zero");
  } else {
    CHECK(!(dt.weeks > 0 && dt.seconds < 0) && !(dt.weeks < 0 && dt.seconds > 0), "weeks and seconds have the same sign");
#ifndef REALS
    CHECK(dt.seconds >= -W && dt.seconds <= W, "seconds are at most a week"); /* a week only by rounding */
#else
    CHECK(dt.seconds > -W && dt.seconds < W, "seconds are less than a week");
    CHECK_EQ((double)dt.weeks * W + dt.seconds, span(&a, &b), TOL, "weeks and seconds add up to the difference");
#endif
#ifndef REALS
    CHECK(dt.weeks - (a.wn - b.wn) >= -1 && dt.weeks - (a.wn - b.wn) <= 1, "weeks differ by at most one from the week numbers");
#endif
  }
  WITNESS("borrow", ok && dt.weeks == a.wn - b.wn - 1);
}
#elif PART == 4 /* range test */
void harness(void) {
  gps_time_t a = vp_time(0, 32767), b = vp_time(0, 32767), t = vp_time(0, 32767);
#ifdef REALS
  bool after_a = t.wn > a.wn || (t.wn == a.wn && t.tow >= a.tow);
  bool before_b = t.wn < b.wn || (t.wn == b.wn && t.tow <= b.tow);
  CHECK(gpstime_in_range(&a, &b, &t) == (after_a && before_b), "in range exactly from the begin to the end, both included");
#endif
  WITNESS("end", t.tow == b.tow && t.wn == b.wn && a.wn < b.wn);
}
#elif PART == 5 /* durations */
void harness(void) {
  gps_time_duration_t d;
  d.seconds = vp_dbl(-2.0 * WD, 2.0 * WD);
  d.weeks = vp_s16();
  ASSUME(d.weeks > -30000 && d.weeks < 30000);
  const double total = (double)d.weeks * W + d.seconds;
  normalize_gps_time_duration(&d);
  CHECK_EQ((double)d.weeks * W + d.seconds, total, TOL, "normalised duration is the same duration");
  CHECK(d.seconds > -W && d.seconds < W, "seconds are less than a week");
  CHECK(!(d.weeks > 0 && d.seconds < 0) && !(d.weeks < 0 && d.seconds > 0), "weeks and seconds have the same sign");
  WITNESS("mixed", d.weeks == -3 && d.seconds < -5);
}
#elif PART == 6 /* epochs */
void harness(void) {
  gps_time_t t = vp_time(-1, 32000);
  const double f = FREQ;
#ifdef FLOOR
  gps_time_t r = floor_to_epoch(&t, f);
  const double up = 0.0, down = 1.0 / FREQ;
#else
  gps_time_t r = round_to_epoch(&t, f);
  const double up = 0.5 / FREQ, down = 0.5 / FREQ;
#endif
  CHECK(r.tow >= 0 && r.tow < W, "the epoch is normalised");
  CHECK((t.wn == WN_UNKNOWN) == (r.wn == WN_UNKNOWN), "the week number is known if that of the time is");
  double d = r.tow - t.tow;
  if (t.wn == WN_UNKNOWN) {
    d = d > W / 2 ? d - W : d < -W / 2 ? d + W : d;
  } else {
    d = span(&r, &t);
  }
  CHECK_LE(d, up, TOL, "the epoch asked for, not a later one");
  CHECK_LE(-down, d, TOL, "the epoch asked for, not an earlier one");
  double n = r.tow * FREQ;
  double near = (double)(int64_t)(n + 0.5);
  CHECK_EQ(n, near, TOL, "the epoch is a multiple of the period");
#ifndef FLOOR
  WITNESS("roll-over", r.tow == 0 && t.tow > 1000);
#else
  WITNESS("last", r.tow > W - 1.5 / FREQ && t.tow > r.tow);
#endif
}
#elif PART == 7 /* times of week in milliseconds, unknown times */
void harness(void) {
  gps_time_t t = {vp_f64(), vp_s16()};
  bool v = t.tow >= 0 && t.tow < W && t.wn >= 0;
  CHECK(gps_time_valid(&t) == v, "valid exactly in the week");
  unix_time_t u = vp_s64();
  CHECK(unix_time_valid(&u) == (u >= 0), "a Unix time is valid unless negative");
  WITNESS("valid", v);
}
#endif
