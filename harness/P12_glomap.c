/* GLONASS slot map: one operation from any state, against an array. */
#include <swiftnav/glo_map.h>
#include <swiftnav/signal.h>
#include "vp.h"
static int depth, locks, used;
static void lk(void) {
  CHECK(depth == 0, "lock taken once");
  depth++;
  locks++;
}
static void ulk(void) {
  CHECK(depth == 1, "unlock after lock");
  depth--;
}
void harness(void) {
  uint8_t ref[29];
  for (int i = 0; i < 29; i++) {
    ref[i] = 0;
  }
  bool with_lock = vp_bool();
  if (with_lock) {
    glo_map_init(lk, ulk);
  } else {
    glo_map_init(NULL, NULL);
  }
  /* any state: every slot unmapped or mapped to any channel */
  for (uint16_t k = 1; k <= 28; k++) {
    uint8_t c = vp_u8();
    ASSUME(c <= 14);
    ref[k] = c;
    if (c != 0) {
      glo_map_set_slot_id(c, k);
    }
  }
  {
    uint16_t fcn = vp_u16(), slot = vp_u16();
    uint8_t op = vp_u8() % 3;
    int before = locks;
    if (op == 0) {
      glo_map_set_slot_id(fcn, slot);
      if (slot >= 1 && slot <= 28 && fcn >= 1 && fcn <= 14) {
        ref[slot] = (uint8_t)fcn;
        CHECK(!with_lock || locks == before + 1, "the map is updated under its lock");
      }
    } else if (op == 1) {
      ASSUME(slot >= 1 && slot <= 28);
      glo_map_clear_slot_id(slot);
      ref[slot] = 0;
      CHECK(!with_lock || locks == before + 1, "the map is updated under its lock");
    } else {
      glo_map_clear_all();
      for (int k = 0; k < 29; k++) {
        ref[k] = 0;
      }
    }
    CHECK(depth == 0, "no lock is left taken");
  }
#ifndef LOOKUP
  gnss_signal_t sid;
  sid.code = vp_bool() ? CODE_GLO_L1OF : CODE_GLO_L2OF;
  sid.sat = vp_u16();
  ASSUME(sid.sat >= 1 && sid.sat <= 28);
  CHECK(glo_map_valid(sid) == (ref[sid.sat] != 0), "a slot is mapped exactly while an entry stands");
  if (ref[sid.sat] != 0) {
    CHECK(glo_map_get_fcn(sid) == ref[sid.sat], "the frequency number last set is returned");
  }
  WITNESS("overwritten", ref[5] == 14 && sid.sat == 5);
#else
  uint16_t f = vp_u16(), a = 77, b = 78, wa = 0, wb = 0;
  ASSUME(f >= 1 && f <= 14);
  uint8_t n = 0;
  for (uint16_t k = 1; k <= 28; k++) {
    if (ref[k] == f && n < 2) {
      n++;
      if (n == 1) {
        wa = k;
      } else {
        wb = k;
      }
    }
  }
  CHECK(glo_map_get_slot_id(f, &a, &b) == n, "reverse lookup counts up to two slots");
  CHECK(a == wa && b == wb, "reverse lookup returns the lowest slots");
  WITNESS("two slots", n == 2 && wb == 28);
#endif
}
