/* Geoid grid lookup. The grid is an arbitrary table. */
#include <math.h>
#include <swiftnav/constants.h>
#include <swiftnav/geoid_model.h>
#include "vptime.h"
#ifndef CELL
#define CELL 1
#endif
#define NX (360 / CELL)
#define NY (180 / CELL)
float GEOID[NX + 1][NY + 1];
#define DEG (3.14159265358979323846 / 180)
#if SLICE == 0 /* any two doubles: the memory checks of the engine, and refusal of what is out of range */
void harness(void) {
  const double lat = vp_f64(), lon = vp_f64();
#if CELL > 1
  for (int x = 0; x <= NX; x++) {
    for (int y = 0; y <= NY; y++) {
      GEOID[x][y] = 7;
    }
  }
#endif
  const float g = get_geoid_offset(lat, lon);
#if CELL > 1
  if (!(lat <= 1.5707964 && lat >= -1.5707964) || !(lon <= 6.283186 && lon > -6.283186)) {
    CHECK(g == 0.0f, "outside the domain or not a number: zero");
  }
#endif
  WITNESS("west", lat < -1 && lon < -3 && lon > -6 && g == g);
}
#elif SLICE == 1 /* one cell, any heights around it, any point in it (exact reals) */
double r2d = R2D; /* a variable: not to be folded by the compiler */
static double cubic(const double p[4], double x) { /* Catmull-Rom */
  return p[1] + 0.5 * x * (p[2] - p[0]) + x * x * (p[0] - 2.5 * p[1] + 2 * p[2] - 0.5 * p[3]) + x * x * x * (-0.5 * p[0] + 1.5 * p[1] - 1.5 * p[2] + 0.5 * p[3]);
}
void harness(void) {
  double p[4][4];
  const int CX = PICK(vp_srange(XLO, XHI)), CY = PICK(vp_srange(YLO, YHI)), west = PICK(vp_srange(0, 1));
  for (int i = 0; i < 4; i++) {
    for (int j = 0; j < 4; j++) {
      const int x = (CX + i - 1 + 360) % 360, y = CY + j - 1;
      if (y < 0 || y > 180) {
        p[i][j] = 0;
        continue;
      }
      const double v = vp_dbl(-200, 200);
      p[i][j] = v;
      GEOID[x][y] = (float)v;
      if (x == 0) {
        GEOID[360][y] = (float)v;
      }
    }
  }
#ifdef QUARTERS
  const double fx = PICK(vp_srange(0, 3)) / 4.0, fy = PICK(vp_srange(0, 3)) / 4.0;
#else
  const double fx = vp_dbl(0, 0.999), fy = vp_dbl(0, 0.999);
#endif
  const float g = get_geoid_offset((CY - 90 + fy) / r2d, (CX + fx - (west ? 360 : 0)) / r2d);
  double want;
  if (CY == 0 || CY == 179) {
    want = (1 - fy) * ((1 - fx) * p[1][1] + fx * p[2][1]) + fy * ((1 - fx) * p[1][2] + fx * p[2][2]);
  } else {
    double q[4];
    for (int i = 0; i < 4; i++) {
      q[i] = cubic(p[i], fy);
    }
    want = cubic(q, fx);
  }
  CHECK_EQ((double)g, want, 0.1, "bicubic inside, bilinear in the cells next to the poles");
}
#elif SLICE == 2 /* the north pole and the meridian of 360 degrees */
double r2d = R2D;
void harness(void) {
  const int pole = PICK(vp_srange(0, 1));
  const double h = vp_dbl(-200, 200);
  if (pole) {
    const int x = PICK(vp_srange(XLO, XHI));
    for (int i = 0; i <= 360; i++) {
      GEOID[i][180] = (float)h;
    }
    CHECK_EQ((double)get_geoid_offset(90 / r2d, (x + vp_dbl(0, 0.999)) / r2d), h, 0.1, "the height of the north pole at every longitude");
  } else {
    const int y = PICK(vp_srange(0, 180));
    GEOID[0][y] = (float)h, GEOID[360][y] = (float)h;
    CHECK_EQ((double)get_geoid_offset((y - 90) / r2d, 360 / r2d), h, 0.1, "the first meridian again");
    CHECK_EQ((double)get_geoid_offset((y - 90) / r2d, 0), h, 0.1, "the first meridian");
  }
}
#endif
