/* Signal sets from any state: membership of one arbitrary signal, and the counts. */
#include <swiftnav/bits.h>
#include <swiftnav/sid_set.h>
#include "vp.h"
static gnss_sid_set_t s;
void harness(void) {
#ifdef COUNTS
  u32 sigs = 0, sats = 0;
  u64 m[CONSTELLATION_COUNT] = {0};
  for (unsigned c = 0; c < CODE_COUNT; c++) {
    s.sats[c] = vp_u64();
    sigs += count_bits_u64(s.sats[c], 1);
    m[code_to_constellation((code_t)c)] |= s.sats[c];
  }
  for (unsigned k = 0; k < CONSTELLATION_COUNT; k++) {
    sats += count_bits_u64(m[k], 1);
  }
#if COUNTS == 1
  CHECK(sid_set_get_sig_count(&s) == sigs, "signal count is the number of signals held");
#else
  CHECK(sid_set_get_sat_count(&s) == sats, "satellite count is the number of distinct satellites held");
#endif
  WITNESS("set", s.sats[3] == 77);
#else
  for (unsigned c = 0; c < CODE_COUNT; c++) {
    s.sats[c] = vp_u64();
  }
  uint16_t satx = vp_u16(), saty = vp_u16();
  for (unsigned c = LO; c < HI; c++) {
    const unsigned d = K == 0 ? c : K == 1 ? (c + 1) % CODE_COUNT : CODE_COUNT - 1 - c;
    gnss_signal_t x = {satx, (code_t)c}, y = {saty, (code_t)d};
    if (sid_valid(x) && sid_valid(y)) {
      bool same = c == d && satx == saty;
      bool hady = sid_set_contains(&s, y);
      sid_set_add(&s, x);
      CHECK(sid_set_contains(&s, y) == (hady || same), "after adding x the set holds x and what it held");
      sid_set_remove(&s, x);
      CHECK(sid_set_contains(&s, y) == (hady && !same), "after removing x the set holds what it held but x");
      sid_set_remove(&s, x);
      CHECK(sid_set_contains(&s, y) == (hady && !same), "removing an absent signal changes nothing");
      WITNESS("last satellite", c == HI - 1 && satx == saty + 3 && hady);
    }
  }
  gnss_signal_t y = {1 + saty % 32, CODE_GAL_E1X};
  sid_set_init(&s);
  CHECK(!sid_set_contains(&s, y), "a fresh set holds nothing");
#endif
}
