/* Selection of the GLONASS code-phase bias. */
#include <swiftnav/glonass_phase_biases.h>
#include "vptime.h"
void harness(void) {
  glo_biases_t b;
  b.mask = vp_u8();
  b.l1of_bias_m = vp_dbl(-1000, 1000), b.l1p_bias_m = vp_dbl(-1000, 1000), b.l2of_bias_m = vp_dbl(-1000, 1000), b.l2p_bias_m = vp_dbl(-1000, 1000);
  const int c = PICK(vp_srange(-1, CODE_COUNT));
  double want = 0;
  /* message flags: 1 L2P, 2 L2 open, 4 L1P, 8 L1 open */
  if (c == CODE_GLO_L1OF) {
    want = (b.mask & 8) ? piksi_glonass_biases.l1of_bias_m - b.l1of_bias_m : (b.mask & 4) ? piksi_glonass_biases.l1of_bias_m - b.l1p_bias_m : 0;
  } else if (c == CODE_GLO_L2OF) {
    want = (b.mask & 2) ? piksi_glonass_biases.l2of_bias_m - b.l2of_bias_m : (b.mask & 1) ? piksi_glonass_biases.l2of_bias_m - b.l2p_bias_m : 0;
  }
  CHECK_EQ(get_glonass_bias((code_t)c, b), want, 1e-9, "reference minus broadcast bias of the band, open signal first, else the precise one, else zero");
  const uint8_t f = vp_u8();
  CHECK(is_bias_mask_flag_set(b.mask, f) == ((b.mask & f) == f), "a flag is set when all its bits are");
}
