/* Published signal plan, written from the signal names (RINEX band and the interface documents), not from the code's table. */
#ifndef SIGPLAN_H
#define SIGPLAN_H
#include <swiftnav/signal.h>
/* carriers in Hz; GLONASS FDMA: channel 0 */
#define F_L1 1575420000.0
#define F_L2 1227600000.0
#define F_L5 1176450000.0
#define F_B1 1561098000.0
#define F_E6 1278750000.0
#define F_E5B 1207140000.0
#define F_E5 1191795000.0
#define F_B3 1268520000.0
#define F_G1 1602000000.0
#define F_G2 1246000000.0
static inline int plan_cons(int c) {
  switch (c) {
    case CODE_GPS_L1CA: case CODE_GPS_L2CM: case CODE_GPS_L1P: case CODE_GPS_L2P: case CODE_GPS_L2CL: case CODE_GPS_L2CX:
    case CODE_GPS_L5I: case CODE_GPS_L5Q: case CODE_GPS_L5X: case CODE_GPS_L1CI: case CODE_GPS_L1CQ: case CODE_GPS_L1CX: case CODE_AUX_GPS:
      return CONSTELLATION_GPS;
    case CODE_SBAS_L1CA: case CODE_SBAS_L5I: case CODE_SBAS_L5Q: case CODE_SBAS_L5X: case CODE_AUX_SBAS:
      return CONSTELLATION_SBAS;
    case CODE_GLO_L1OF: case CODE_GLO_L2OF: case CODE_GLO_L1P: case CODE_GLO_L2P:
      return CONSTELLATION_GLO;
    case CODE_BDS2_B1: case CODE_BDS2_B2: case CODE_BDS3_B1CI: case CODE_BDS3_B1CQ: case CODE_BDS3_B1CX: case CODE_BDS3_B5I: case CODE_BDS3_B5Q:
    case CODE_BDS3_B5X: case CODE_BDS3_B7I: case CODE_BDS3_B7Q: case CODE_BDS3_B7X: case CODE_BDS3_B3I: case CODE_BDS3_B3Q: case CODE_BDS3_B3X:
    case CODE_AUX_BDS:
      return CONSTELLATION_BDS;
    case CODE_QZS_L1CA: case CODE_QZS_L1CI: case CODE_QZS_L1CQ: case CODE_QZS_L1CX: case CODE_QZS_L2CM: case CODE_QZS_L2CL: case CODE_QZS_L2CX:
    case CODE_QZS_L5I: case CODE_QZS_L5Q: case CODE_QZS_L5X: case CODE_AUX_QZS:
      return CONSTELLATION_QZS;
    case CODE_GAL_E1B: case CODE_GAL_E1C: case CODE_GAL_E1X: case CODE_GAL_E6B: case CODE_GAL_E6C: case CODE_GAL_E6X: case CODE_GAL_E7I:
    case CODE_GAL_E7Q: case CODE_GAL_E7X: case CODE_GAL_E8I: case CODE_GAL_E8Q: case CODE_GAL_E8X: case CODE_GAL_E5I: case CODE_GAL_E5Q:
    case CODE_GAL_E5X: case CODE_AUX_GAL:
      return CONSTELLATION_GAL;
    default:
      return CONSTELLATION_INVALID;
  }
}
static inline double plan_freq(int c) {
  switch (c) {
    case CODE_BDS2_B1: case CODE_AUX_BDS:
      return F_B1;
    case CODE_GLO_L1OF: case CODE_GLO_L1P:
      return F_G1;
    case CODE_GLO_L2OF: case CODE_GLO_L2P:
      return F_G2;
    case CODE_GPS_L2CM: case CODE_GPS_L2CL: case CODE_GPS_L2CX: case CODE_GPS_L2P: case CODE_QZS_L2CM: case CODE_QZS_L2CL: case CODE_QZS_L2CX:
      return F_L2;
    case CODE_GPS_L5I: case CODE_GPS_L5Q: case CODE_GPS_L5X: case CODE_QZS_L5I: case CODE_QZS_L5Q: case CODE_QZS_L5X: case CODE_SBAS_L5I:
    case CODE_SBAS_L5Q: case CODE_SBAS_L5X: case CODE_GAL_E5I: case CODE_GAL_E5Q: case CODE_GAL_E5X: case CODE_BDS3_B5I: case CODE_BDS3_B5Q:
    case CODE_BDS3_B5X:
      return F_L5;
    case CODE_GAL_E6B: case CODE_GAL_E6C: case CODE_GAL_E6X:
      return F_E6;
    case CODE_GAL_E7I: case CODE_GAL_E7Q: case CODE_GAL_E7X: case CODE_BDS2_B2: case CODE_BDS3_B7I: case CODE_BDS3_B7Q: case CODE_BDS3_B7X:
      return F_E5B;
    case CODE_GAL_E8I: case CODE_GAL_E8Q: case CODE_GAL_E8X:
      return F_E5;
    case CODE_BDS3_B3I: case CODE_BDS3_B3Q: case CODE_BDS3_B3X:
      return F_B3;
    default:
      return F_L1;
  }
}
/* code length [chips], rate [chips/s], period [ms]; 0 where the library supports no tracking data for the component */
static inline void plan_chips(int c, unsigned *n, double *rate, unsigned *ms) {
  switch (c) {
    case CODE_GPS_L1CA: case CODE_AUX_GPS: case CODE_SBAS_L1CA: case CODE_AUX_SBAS: case CODE_QZS_L1CA: case CODE_AUX_QZS:
      *n = 1023, *rate = 1023e3, *ms = 1;
      break;
    case CODE_GPS_L1CI: case CODE_QZS_L1CI: case CODE_BDS3_B1CI:
      *n = 10230, *rate = 1023e3, *ms = 10;
      break;
    case CODE_GPS_L2CM: case CODE_QZS_L2CM: /* time multiplexed: every other chip of 1.023 MHz */
      *n = 20460, *rate = 1023e3, *ms = 20;
      break;
    case CODE_GPS_L2CL: case CODE_QZS_L2CL:
      *n = 1534500, *rate = 1023e3, *ms = 1500;
      break;
    case CODE_GPS_L5I: case CODE_QZS_L5I: case CODE_SBAS_L5I: case CODE_SBAS_L5Q: case CODE_SBAS_L5X: case CODE_GAL_E7I: case CODE_GAL_E5I: case CODE_BDS3_B3I: case CODE_BDS3_B5I:
    case CODE_BDS3_B7I: case CODE_BDS3_B7X:
      *n = 10230, *rate = 10230e3, *ms = 1;
      break;
    case CODE_GLO_L1OF: case CODE_GLO_L2OF:
      *n = 511, *rate = 511e3, *ms = 1;
      break;
    case CODE_GAL_E1B: case CODE_AUX_GAL:
      *n = 4092, *rate = 1023e3, *ms = 4;
      break;
    case CODE_GAL_E6B:
      *n = 5115, *rate = 5115e3, *ms = 1;
      break;
    case CODE_BDS2_B1: case CODE_AUX_BDS: case CODE_BDS2_B2:
      *n = 2046, *rate = 2046e3, *ms = 1;
      break;
    default:
      *n = 0, *rate = 0, *ms = 0;
  }
}
static inline unsigned plan_first(int cons) { return cons == CONSTELLATION_SBAS ? 120 : cons == CONSTELLATION_QZS ? 193 : 1; }
static inline unsigned plan_count(int cons) {
  switch (cons) {
    case CONSTELLATION_GPS: return 32;
    case CONSTELLATION_SBAS: return 19;
    case CONSTELLATION_GLO: return 28;
    case CONSTELLATION_BDS: return 64;
    case CONSTELLATION_QZS: return 10;
    case CONSTELLATION_GAL: return 36;
    default: return 0;
  }
}
static inline bool plan_valid(int code, unsigned sat) {
  int k = plan_cons(code);
  return k >= 0 && sat >= plan_first(k) && sat < plan_first(k) + plan_count(k);
}
#endif
