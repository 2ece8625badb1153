/* Carrier, wavelength and code data against the published plan, for any satellite and channel assignment. */
#include <swiftnav/constants.h>
#include <swiftnav/glo_map.h>
#include "sigplan.h"
#include "vp.h"
#define LIGHT 299792458.0
void harness(void) {
  gnss_signal_t s;
  s.sat = vp_u16();
#ifdef GLO
  /* any channel for the slot asked about, and a later assignment to any other slot */
  uint16_t f = vp_u16(), other = vp_u16(), g = vp_u16();
  s.code = GLO;
  ASSUME(s.sat >= 1 && s.sat <= 28 && f >= 1 && f <= 14 && other != s.sat);
  glo_map_set_slot_id(f, s.sat);
  glo_map_set_slot_id(g, other);
  double got = sid_to_carr_freq(s), lambda = sid_to_lambda(s);
  const double step = GLO == CODE_GLO_L1OF ? 562500.0 : 437500.0;
  for (int k = -7; k <= 6; k++) {
    if (f == k + 8) {
      const double want = plan_freq(GLO) + k * step, wl = LIGHT / want;
      CHECK(got == want, "FDMA carrier is base plus channel times step");
      CHECK(lambda > wl - 1e-12 && lambda < wl + 1e-12, "wavelength is the speed of light over the carrier");
    }
  }
  WITNESS("low channel", f == 1 && s.sat == 28 && other == 3 && g == 7);
#else
  for (int c = 0; c < CODE_COUNT; c++) {
    s.code = (code_t)c;
    if (c != CODE_GLO_L1OF && c != CODE_GLO_L2OF && sid_valid(s)) {
      double e = sid_to_carr_freq(s) - plan_freq(c);
      CHECK(e > -1e-3 && e < 1e-3, "carrier is the published one");
      double d = sid_to_lambda(s) - LIGHT / plan_freq(c);
      CHECK(d > -1e-12 && d < 1e-12, "wavelength is the speed of light over the carrier");
      WITNESS("last", c == CODE_COUNT - 1);
    }
    unsigned n, ms;
    double rate;
    plan_chips(c, &n, &rate, &ms);
    CHECK(code_to_chip_count((code_t)c) == n, "code length is the published one");
    double d = code_to_chip_rate((code_t)c) - rate;
    CHECK(d > -1e-3 && d < 1e-3, "chip rate is the published one");
    CHECK(code_to_prn_period_ms((code_t)c) == ms, "code period is the published one");
    CHECK(code_to_sv_doppler_max((code_t)c) > 0 && code_to_sv_doppler_min((code_t)c) == -code_to_sv_doppler_max((code_t)c), "Doppler bounds are symmetric");
  }
#endif
}
