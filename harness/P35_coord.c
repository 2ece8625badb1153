/* Coordinate frames, over exact reals with sin^2 + cos^2 = 1. */
#include <math.h>
#include <swiftnav/constants.h>
#include <swiftnav/coord_system.h>
#include "vptime.h"
#ifndef LAT0
#define LAT0 0
#endif
double A_ = 6378137.0, F_ = 1 / 298.257223563, d2r = D2R, r2d = R2D, one = 1; /* variables: not to be folded by the compiler */
#ifdef REF
static double ref_[3], llh_[3];
static bool asked;
/* the geodetic coordinates of the reference point: any values */
void wgsecef2llh(const double ecef[3], double llh[3]) {
  asked = true;
  for (int i = 0; i < 3; i++) {
    CHECK_EQ(ecef[i], ref_[i], 1e-6, "the local frame is the one at the reference point");
    llh[i] = llh_[i];
  }
}
static void any_ref(void) {
  for (int i = 0; i < 3; i++) {
    ref_[i] = vp_dbl(-1e7, 1e7);
  }
#if SLICE == 4
  llh_[0] = LAT0, llh_[1] = 0, llh_[2] = 0;
#else
  llh_[0] = vp_dbl(-1.58, 1.58), llh_[1] = vp_dbl(-3.15, 3.15), llh_[2] = vp_dbl(-1e4, 1e7);
#endif
}
#endif
static void axes(double lat, double lon, double n[3], double e[3], double u[3]) {
  const double sa = sin(lat), ca = cos(lat), so = sin(lon), co = cos(lon);
  u[0] = ca * co, u[1] = ca * so, u[2] = sa;
  e[0] = -so, e[1] = co, e[2] = 0;
  n[0] = -sa * co, n[1] = -sa * so, n[2] = ca;
}
void harness(void) {
#if SLICE == 0
  double llh[3], M[3][3], n[3], e[3], u[3];
  for (int i = 0; i < 3; i++) {
    llh[i] = vp_dbl(-10, 10);
  }
  axes(llh[0], llh[1], n, e, u);
  wgs_ecef2ned_matrix(llh, M);
  for (int i = 0; i < 3; i++) {
    CHECK_EQ(M[0][i], n[i], 1e-9, "first row: north");
    CHECK_EQ(M[1][i], e[i], 1e-9, "second row: east");
    CHECK_EQ(M[2][i], -u[i], 1e-9, "third row: down");
  }
#elif SLICE == 1 /* orthonormal and right-handed, from the library's matrix alone */
  double llh[3] = {vp_dbl(-10, 10), vp_dbl(-10, 10), 0}, M[3][3];
  wgs_ecef2ned_matrix(llh, M);
  for (int i = 0; i < 3; i++) {
    for (int j = i; j < 3; j++) {
      CHECK_EQ(M[i][0] * M[j][0] + M[i][1] * M[j][1] + M[i][2] * M[j][2], i == j ? 1.0 : 0.0, 1e-9, "rows are orthonormal");
    }
    const int p = (i + 1) % 3, q = (i + 2) % 3;
    CHECK_EQ(M[0][p] * M[1][q] - M[0][q] * M[1][p], M[2][i], 1e-9, "north cross east is down");
  }
#elif SLICE == 2 /* rotation of vectors */
  any_ref();
  double v[3], n[3], e[3], u[3], ned[3] = {9, 9, 9}, back[3] = {9, 9, 9};
  for (int i = 0; i < 3; i++) {
    v[i] = vp_dbl(-1e8, 1e8);
  }
  axes(llh_[0], llh_[1], n, e, u);
  wgsecef2ned(v, ref_, ned);
  CHECK_EQ(ned[0], v[0] * n[0] + v[1] * n[1] + v[2] * n[2], 1e-3, "north component");
  CHECK_EQ(ned[1], v[0] * e[0] + v[1] * e[1] + v[2] * e[2], 1e-3, "east component");
  CHECK_EQ(ned[2], -(v[0] * u[0] + v[1] * u[1] + v[2] * u[2]), 1e-3, "down component");
  wgsecef2ned_d(v, ref_, ned);
  double d[3] = {v[0] - ref_[0], v[1] - ref_[1], v[2] - ref_[2]};
  CHECK_EQ(ned[0], d[0] * n[0] + d[1] * n[1] + d[2] * n[2], 1e-3, "north of the reference point");
  CHECK_EQ(ned[1], d[0] * e[0] + d[1] * e[1] + d[2] * e[2], 1e-3, "east of the reference point");
  CHECK_EQ(ned[2], -(d[0] * u[0] + d[1] * u[1] + d[2] * u[2]), 1e-3, "below the reference point");
  wgsned2ecef(v, ref_, back);
  for (int i = 0; i < 3; i++) {
    CHECK_EQ(back[i], v[0] * n[i] + v[1] * e[i] - v[2] * u[i], 1e-3, "back to the earth-centred frame");
  }
  wgsned2ecef_d(v, ref_, back);
  for (int i = 0; i < 3; i++) {
    CHECK_EQ(back[i], ref_[i] + v[0] * n[i] + v[1] * e[i] - v[2] * u[i], 1e-3, "back to a point in the earth-centred frame");
  }
  CHECK(asked, "the frame is that of the reference point");
#elif SLICE == 3 /* round trip */
  any_ref();
  double v[3], ned[3], back[3];
  for (int i = 0; i < 3; i++) {
    v[i] = vp_dbl(-1e8, 1e8);
  }
  wgsecef2ned(v, ref_, ned);
  wgsned2ecef(ned, ref_, back);
  for (int i = 0; i < 3; i++) {
    CHECK_EQ(back[i], v[i], 1e-3, "to the local frame and back is the identity");
  }
#elif SLICE == 4 /* azimuth and elevation */
  any_ref();
  double v[3], n[3], e[3], u[3], d[3], az = 77, el = 77;
  for (int i = 0; i < 3; i++) {
    v[i] = vp_dbl(-1e8, 1e8);
    d[i] = v[i] - ref_[i];
  }
  axes(llh_[0], llh_[1], n, e, u);
  const double N = d[0] * n[0] + d[1] * n[1] + d[2] * n[2], E = d[0] * e[0] + d[1] * e[1] + d[2] * e[2], U = d[0] * u[0] + d[1] * u[1] + d[2] * u[2];
  ASSUME(N * N + E * E + U * U > 1);
  const double ta = atan2(E, N);
  const double te = asin(U / sqrt(N * N + E * E + U * U));
  wgsecef2azel(v, ref_, &az, &el);
  CHECK(az >= 0 && az <= 2 * M_PI + 1e-9, "azimuth is in [0, 2 pi]");
  CHECK_EQ(az, ta < 0 ? ta + 2 * M_PI : ta, 1e-6, "azimuth is the direction from north to east");
  CHECK_EQ(el, te, 1e-6, "elevation is the angle above the horizontal plane");
  CHECK(U > 0 ? el > -1e-9 : U < 0 ? el < 1e-9 : el < 1e-9 && el > -1e-9, "elevation has the sign of the upward component");
#elif SLICE == 5 /* degrees and geodetic to earth-centred */
  double a[3], b[3] = {7, 7, 7}, c[3] = {7, 7, 7}, n[3], e[3], u[3];
  a[0] = vp_dbl(-1.58, 1.58), a[1] = vp_dbl(-6.3, 6.3), a[2] = vp_dbl(-1e5, 1e8);
  llhrad2deg(a, b);
  llhdeg2rad(b, c);
  for (int i = 0; i < 2; i++) {
    CHECK_EQ(b[i], a[i] * r2d, 1e-6, "degrees");
    CHECK_LE(fabs(c[i] - a[i]), 1e-12, 0, "and back");
  }
  CHECK(b[2] == a[2] && c[2] == a[2], "height is untouched");
  const double ec = WGS84_E, N = WGS84_A / sqrt(1 - ec * ec * sin(a[0]) * sin(a[0]));
  double p[3];
  axes(a[0], a[1], n, e, u);
  wgsllh2ecef(a, p);
  CHECK_EQ(p[0], (N + a[2]) * u[0], 1e-3, "surface point plus height along the normal: x");
  CHECK_EQ(p[1], (N + a[2]) * u[1], 1e-3, "surface point plus height along the normal: y");
  CHECK_EQ(p[2], ((1 - ec * ec) * N + a[2]) * u[2], 1e-3, "surface point plus height along the normal: z");
#elif SLICE == 8 /* the ellipsoid */
  const double ec = WGS84_E, e2 = F_ * (2 - F_);
  CHECK(WGS84_A == A_, "semi-major axis");
  CHECK_LE(fabs(ec * ec - e2), 1e-14, 0, "eccentricity from the flattening");
  CHECK_LE(fabs(WGS84_B - A_ * (1 - F_)), 1e-6, 0, "semi-minor axis");
#elif SLICE == 6 /* earth-centred to geodetic: equator */
  double p[3] = {vp_dbl(-1e8, 1e8), vp_dbl(-1e8, 1e8), 0}, g[3] = {9, 9, 9};
  const double r = sqrt(p[0] * p[0] + p[1] * p[1]);
  ASSUME(r > 6e6);
  wgsecef2llh(p, g);
  CHECK_EQ(g[0], 0.0, 1e-9, "latitude zero on the equator");
  CHECK_EQ(g[1], atan2(p[1], p[0]), 1e-9, "longitude");
  CHECK_EQ(g[2], r - A_, 1e-3, "height above the equator");
#else /* poles */
  double p[3] = {0, 0, vp_dbl(-1e8, 1e8)}, g[3] = {9, 9, 9};
  ASSUME(p[2] > 1e6 || p[2] < -1e6);
  wgsecef2llh(p, g);
  CHECK_EQ(g[0], p[2] > 0 ? M_PI / 2 : -M_PI / 2, 1e-9, "latitude of the pole");
  CHECK_EQ(g[1], 0.0, 1e-9, "longitude of the pole");
  CHECK_LE(fabs(g[2] - (fabs(p[2]) - A_ * (1 - F_))), 1e-3, 0, "height above the pole");
#endif
}
