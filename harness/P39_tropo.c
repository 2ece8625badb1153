/* UNB3m tropospheric delay over exact reals; elementary functions are uninterpreted (same argument, same value). */
#include <math.h>
#include <swiftnav/common.h>
#include <swiftnav/constants.h>
#include <swiftnav/troposphere.h>
#include "vptime.h"
static double r2d = R2D, d2r = D2R, pi = M_PI;
/* rows: latitudes 15, 30, 45, 60, 75 (Leandro et al. 2006, Niell 1996) */
static double P0[] = {1013.25, 1017.25, 1015.75, 1011.75, 1013.00}, P1[] = {0.00, -3.75, -2.25, -1.75, -0.50};
static double T0[] = {299.65, 294.15, 283.15, 272.15, 263.65}, T1[] = {0.00, 7.00, 11.00, 15.00, 14.50};
static double B0[] = {6.30, 6.05, 5.58, 5.39, 4.53}, B1[] = {0.00, 0.25, 0.32, 0.81, 0.62};
static double L0[] = {2.77, 3.15, 2.57, 1.81, 1.55}, L1[] = {0.00, 0.33, 0.46, 0.74, 0.30};
static double H0[] = {75.0, 80.0, 76.0, 77.5, 82.5}, H1[] = {0.0, 0.0, -1.0, -2.5, 2.5};
static double MA0[] = {1.2769934e-3, 1.2683230e-3, 1.2465397e-3, 1.2196049e-3, 1.2045996e-3}, MA1[] = {0.0, 1.2709626e-5, 2.6523662e-5, 3.4000452e-5, 4.1202191e-5};
static double MB0[] = {2.9153695e-3, 2.9152299e-3, 2.9288445e-3, 2.9022565e-3, 2.9024912e-3}, MB1[] = {0.0, 2.1414979e-5, 3.0160779e-5, 7.2562722e-5, 11.723375e-5};
static double MC0[] = {62.610505e-3, 62.837393e-3, 63.721774e-3, 63.824265e-3, 64.258455e-3}, MC1[] = {0.0, 9.0128400e-5, 4.3497037e-5, 84.795348e-5, 170.37206e-5};
static double WA[] = {5.8021897e-4, 5.6794847e-4, 5.8118019e-4, 5.9727542e-4, 6.1641693e-4}, WB[] = {1.4275268e-3, 1.5138625e-3, 1.4572752e-3, 1.5007428e-3, 1.7599082e-3};
static double WC[] = {4.3472961e-2, 4.6729510e-2, 4.3908931e-2, 4.4626982e-2, 5.4736038e-2};
static double at(double alat, const double *t) { /* piecewise linear, constant outside */
  for (int i = 0; i < 5; i++) {
    if (i == 0 ? alat <= 15 : alat < 15 * i + 15) {
      return i == 0 ? t[0] : t[i - 1] + (t[i] - t[i - 1]) / 15 * (alat - 15 * i);
    }
  }
  return t[4];
}
static double season; /* cos of the annual phase */
static double par(double alat, const double *avg, const double *amp) { return at(alat, avg) - at(alat, amp) * season; }
static double marini(double a, double b, double c, double s) { return (1 + a / (1 + b / (1 + c))) / (s + a / (s + b / (s + c))); }
static double oracle(double doy, double lat, double h, double el) { /* degrees, m; 0 <= h, el at least the minimum */
  const double alat = lat < 0 ? -lat : lat;
  const double year = 365.25, phase = 2.0 * M_PI / year;
  season = cos(((lat < 0 ? doy + 365.25 / 2 : doy) - 28) * phase);
  const double p0 = par(alat, P0, P1), t0 = par(alat, T0, T1), b = par(alat, B0, B1) / 1000, l = par(alat, L0, L1), rh = par(alat, H0, H1);
  const double es = 0.01 * exp(1.2378847e-5 * t0 * t0 - 1.9121316e-2 * t0 + 3.393711047e1 - 6.3431645e3 / t0);
  const double x = t0 - 273.15, fw = 1.00062 + 3.14e-6 * p0 + 5.6e-7 * x * x, e0 = rh / 100.0 * es * fw;
  const double rgas = 8314.34, md = 28.9644, rd = rgas / md, k1 = 77.604, k2 = 64.79, mw = 18.0152, k2p = k2 - k1 * (mw / md), k3 = 377600.0;
  const double t = t0 - b * h, ep = 9.80665 / 287.054 / b, l1 = l + 1;
  const double p = p0 * powf((float)(t / t0), (float)ep), e = e0 * powf((float)(t / t0), (float)(ep * l1));
  const double geocentric = atan((1.0 - 6.6943799901413e-3) * tan(lat * d2r));
  const double g = 1.0 - 2.66e-3 * cos(2.0 * geocentric) - 2.8e-7 * h, gm = 9.784 * g;
  const double tm = t * (1.0 - b * rd / (gm * l1));
  const double zhd = 2.2768e-3 / g * p, zwd = 1e-6 * (k2p + k3 / tm) * rd * e / (gm * l1);
  const double s = sin(el * d2r);
  const double ha = 2.53e-5, hb = 5.49e-3, hc = 1.14e-3, ht = 1.0 + ha / (1.0 + hb / (1.0 + hc)); /* folded by the compiler, like the library's */
  const double mh = marini(par(alat, MA0, MA1), par(alat, MB0, MB1), par(alat, MC0, MC1), s) + (1 / s - ht / (s + ha / (s + hb / (s + hc)))) * h / 1000.0;
  const double mw_ = marini(at(alat, WA), at(alat, WB), at(alat, WC), s);
  return mh * zhd + mw_ * zwd;
}
#if SLICE == 0 /* whole formula, one latitude band (between two table rows) */
void harness(void) {
  const double doy = vp_dbl(0, 367), alat = vp_dbl(LO, HI), lat = SOUTH ? -alat : alat, h = vp_dbl(-1000, 12000), el = vp_dbl(-1.6, 1.6);
  const double elr = el;
  const double latd = lat * r2d, eld = elr * r2d;
  const double r = calc_troposphere(doy, lat, h, el);
  if (h > 11000) {
    CHECK_EQ(r, 0.0, 0, "no delay above the troposphere");
    return;
  }
  CHECK_EQ(r, oracle(doy, latd, h < 0 ? 0 : h, eld < 0.1 ? 0.1 : eld), 1e-6, "the modelled delay");
}
#endif
