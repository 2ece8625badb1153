/* Measurement flags, lock-time codec, ordering and satellite-clock corrections. */
#include <swiftnav/constants.h>
#include <swiftnav/glo_map.h>
#include <swiftnav/nav_meas.h>
#include "sigplan.h"
#include "vptime.h"
static navigation_measurement_t m, n;
#if SLICE == 0 /* flags */
void harness(void) {
  m.flags = vp_u16();
  m.raw_pseudorange = vp_f64(), m.lock_time = vp_f64(), m.cn0 = vp_f64(), m.sid.sat = vp_u16();
  CHECK(pseudorange_valid(&m) == ((m.flags & 1) && !(m.flags & 64)), "valid exactly when the code is valid and not excluded");
  WITNESS("valid", m.flags == 0xffbf && pseudorange_valid(&m));
}
#elif SLICE == 1 /* codec */
#define K(i) (0.032 * (double)(1u << ((i)-1))) /* exact scaling of the lowest bound */
void harness(void) {
  const double t = vp_f64();
  ASSUME(t >= 0);
  const uint8_t c = encode_lock_time(t);
  CHECK(c <= 15, "four-bit code");
  /* the code is the number of bounds 32 ms .. 524288 ms reached, times truncated to the millisecond */
  for (int i = 1; i <= 15; i++) {
    CHECK(t < K(i) * (1 + 1e-9) || c >= i, "not understated");
    CHECK(t > K(i) * (1 - 1e-9) || c < i, "never overstated");
  }
  const uint8_t d = vp_u8();
  CHECK(decode_lock_time(d) == ((d & 15) ? K(d & 15) : 0), "the lower bound of the code");
  CHECK(encode_lock_time(decode_lock_time(d)) == (d & 15), "decoding then encoding is the identity");
  WITNESS("late", c == 15 && t > 5e6);
}
#elif SLICE == 2 /* monotone, any two times */
void harness(void) {
  const double a = vp_f64(), b = vp_f64();
  ASSUME(a >= 0 && b >= a);
  CHECK(encode_lock_time(a) <= encode_lock_time(b), "monotone");
  WITNESS("apart", encode_lock_time(a) == 3 && encode_lock_time(b) == 14);
}
#elif SLICE == 3 /* ordering */
static int sg(int x) { return (x > 0) - (x < 0); }
void harness(void) {
  vp_bytes(&m, sizeof m), vp_bytes(&n, sizeof n);
  m.sid.code = (code_t)vp_s32(), n.sid.code = (code_t)vp_s32();
  ASSUME(m.sid.code >= 0 && m.sid.code < CODE_COUNT && n.sid.code >= 0 && n.sid.code < CODE_COUNT);
  const int cm = plan_cons(m.sid.code), cn = plan_cons(n.sid.code);
  int want = cm != cn ? sg(cm - cn) : m.sid.code != n.sid.code ? sg((int)m.sid.code - (int)n.sid.code) : sg((int)m.sid.sat - (int)n.sid.sat);
  CHECK(sg(nav_meas_cmp(&m, &n)) == want, "measurements order by signal: constellation, code, satellite");
  CHECK(not_l2p_sid(m) == (m.sid.code != CODE_GPS_L2P), "L2P recognised");
  WITNESS("less", want < 0 && m.sid.code == n.sid.code);
}
#else /* corrections (exact reals) */
void harness(void) {
  m.raw_pseudorange = vp_dbl(-1e9, 1e9), m.raw_carrier_phase = vp_dbl(-1e9, 1e9), m.raw_measured_doppler = vp_dbl(-1e6, 1e6), m.raw_computed_doppler = vp_dbl(-1e6, 1e6);
  m.sat_clock_err = vp_dbl(-1, 1), m.sat_clock_err_rate = vp_dbl(-1e-3, 1e-3);
  m.flags = vp_u16();
  const int c = PICK(vp_srange(LO, HI));
#if GLO
  const int slot = 5, fcn = PICK(vp_srange(1, 14));
  m.sid.sat = slot;
  m.sid.code = (code_t)c;
  glo_map_set_slot_id((uint16_t)fcn, slot);
  const double f = plan_freq(c) + (fcn - 8) * (c == CODE_GLO_L1OF ? 562500.0 : 437500.0);
#else
  m.sid.code = (code_t)c;
  m.sid.sat = (uint16_t)(plan_cons(c) == CONSTELLATION_SBAS ? 125 : plan_cons(c) == CONSTELLATION_QZS ? 194 : 7);
  const double f = plan_freq(c);
  if (c == CODE_GLO_L1OF || c == CODE_GLO_L2OF || c == CODE_GLO_L1P || c == CODE_GLO_L2P) {
    return;
  }
#endif
  CHECK_EQ(nav_meas_cor_sat_clk_on_pseudorange(&m), m.raw_pseudorange + 299792458.0 * m.sat_clock_err, 1e-5, "pseudorange plus clock error times the speed of light");
  CHECK_EQ(nav_meas_cor_sat_clk_on_measured_doppler(&m), m.raw_measured_doppler + f * m.sat_clock_err_rate, 1e-6, "Doppler plus clock rate times the carrier");
  CHECK_EQ(nav_meas_cor_sat_clk_on_carrier_phase(&m), m.raw_carrier_phase + f * m.sat_clock_err, 1e-5, "phase plus clock error times the carrier");
}
#endif
