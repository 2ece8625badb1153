/* Single-frequency (Klobuchar) ionospheric delay: IS-GPS-200 20.3.3.5.2.5. */
#include <math.h>
#include <swiftnav/constants.h>
#include <swiftnav/ionosphere.h>
#include "vptime.h"
#define PI_ 3.14159265358979323846
static ionosphere_t i;
static gps_time_t t;
#ifdef LAT
#ifndef LON
#define LON 0
#define AZ 0
#endif
double glat = LAT, gel = ELEV, glon = LON, gaz = AZ; /* variables: not to be folded by the compiler */
#endif
#ifdef EL
void harness(void) {
  const double lat = 0.5, lon = 0, az = 0;
  memset(&i, 0, sizeof i);
  memset(&t, 0, sizeof t);
  i.a0 = vp_dbl(-1e-6, 1e-6), i.b0 = PER;
  t.tow = vp_dbl(0, 86400);
  const double got = calc_ionosphere(&t, lat, lon, az, EL, &i);
  const double E = EL / PI_, night = 5e-9 * (1 + 16 * (0.53 - E) * (0.53 - E) * (0.53 - E)) * GPS_C;
  CHECK_LE(night, got, 1e-6, "never below the night side");
  CHECK_LE(got, night * (1 + 2e8 * fabs(i.a0)), 1e-6, "at most the amplitude above it");
  WITNESS("day", got > night + 1);
}
#else
void harness(void) {
#if SLICE == 1 /* the geometry: constant amplitude and period */
  const double lat = vp_dbl(-1.58, 1.58), lon = vp_dbl(-3.15, 3.15), az = vp_dbl(-6.3, 6.3), el = vp_dbl(0, 1.58);
#elif SLICE == 4 /* one direction */
  const double lat = glat, lon = glon, az = gaz, el = gel;
#else /* the polynomials of the geomagnetic latitude */
  const double lat = glat, lon = vp_dbl(-3.15, 3.15), az = 0, el = gel;
#endif
  memset(&i, 0, sizeof i);
  memset(&t, 0, sizeof t);
  i.a0 = vp_dbl(-1e-6, 1e-6), i.b0 = vp_dbl(-1e6, 1e6);
#if SLICE == 2
  i.b0 = 72000;
  i.a1 = vp_dbl(-1e-5, 1e-5), i.a2 = vp_dbl(-1e-5, 1e-5), i.a3 = vp_dbl(-1e-5, 1e-5);
#elif SLICE == 3
  i.b1 = vp_dbl(-1e7, 1e7), i.b2 = vp_dbl(-1e7, 1e7), i.b3 = vp_dbl(-1e7, 1e7);
#endif
  t.tow = vp_dbl(0, WD), t.wn = vp_s16();
  /* everything in semicircles */
  const double E = el / PI_, psi = 0.0137 / (E + 0.11) - 0.022;
  double phi = lat / PI_ + psi * cos(az);
  if (phi > 0.416) {
    phi = 0.416;
  } else if (phi < -0.416) {
    phi = -0.416;
  }
#if SLICE == 1
  ASSUME(REGION == 0 ? phi > -0.416 && phi < 0.416 : REGION > 0 ? phi == 0.416 : phi == -0.416);
  ASSUME(cos(phi * PI_) > 0.2); /* the argument is at most 0.416 pi */
#endif
  const double lam = lon / PI_ + psi * sin(az) / cos(phi * PI_);
  const double pm = phi + 0.064 * cos((lam - 1.617) * PI_);
  const double loc = 43200.0 * lam + t.tow, day = loc - 86400.0 * floor(loc / 86400.0);
  ASSUME(EAST ? loc >= 0 : loc < 0);
  const double amp = i.a0 + i.a1 * pm + i.a2 * pm * pm + i.a3 * pm * pm * pm, per = i.b0 + i.b1 * pm + i.b2 * pm * pm + i.b3 * pm * pm * pm;
  const double A = amp < 0 ? 0 : amp, P = per < 72000 ? 72000 : per;
  const double x = 2 * PI_ * (day - 50400.0) / P;
  const double F = 1 + 16 * (0.53 - E) * (0.53 - E) * (0.53 - E);
  const double night = 5e-9 * F * GPS_C;
  const double got = calc_ionosphere(&t, lat, lon, az, el, &i);
  if (x < 1.57 && x > -1.57) {
    CHECK_EQ(got, night + F * A * (1 - x * x / 2 + x * x * x * x / 24) * GPS_C, 1e-6 + 1e-6 * fabs(got), "day side: the cubic cosine of the local time");
  } else {
    CHECK_EQ(got, night, 1e-6, "night side: 5 ns slanted");
  }
}
#endif
