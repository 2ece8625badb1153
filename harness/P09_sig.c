/* Signal numbering: validity, code index, classification, for any code value and any satellite number. */
#include "sigplan.h"
#include "vp.h"
void harness(void) {
  int32_t code = vp_s32();
  uint16_t sat = vp_u16();
  gnss_signal_t sid = construct_sid((code_t)code, sat);
  CHECK((int32_t)sid.code == code && sid.sat == sat, "construct keeps both fields");
  CHECK(code_valid((code_t)code) == (plan_cons(code) != CONSTELLATION_INVALID), "exactly the named codes are valid");
  CHECK(sid_valid(sid) == plan_valid(code, sat), "exactly the published satellite range of each code is valid");
  CHECK(sid_to_constellation(sid) == plan_cons(code), "a signal's constellation is the one its code names");
  CHECK(is_gps((code_t)code) == (plan_cons(code) == CONSTELLATION_GPS), "GPS predicate");
  CHECK(is_sbas((code_t)code) == (plan_cons(code) == CONSTELLATION_SBAS), "SBAS predicate");
  CHECK(is_glo((code_t)code) == (plan_cons(code) == CONSTELLATION_GLO), "GLONASS predicate");
  CHECK(is_bds2((code_t)code) == (plan_cons(code) == CONSTELLATION_BDS), "BeiDou predicate");
  CHECK(is_gal((code_t)code) == (plan_cons(code) == CONSTELLATION_GAL), "Galileo predicate");
  CHECK(is_qzss((code_t)code) == (plan_cons(code) == CONSTELLATION_QZS), "QZSS predicate");
  CHECK(glo_slot_id_is_valid(sat) == (sat >= 1 && sat <= 28), "GLONASS slots are 1..28");
  CHECK(glo_fcn_is_valid(sat) == (sat >= 1 && sat <= 14), "GLONASS channels are 1..14");
  if (code_valid((code_t)code)) {
    int k = plan_cons(code);
    CHECK(code_to_constellation((code_t)code) == k, "a code's constellation is the one it names");
    CHECK(code_to_sig_count((code_t)code) == (k == CONSTELLATION_GLO ? 14 : plan_count(k)), "number of signals of a code");
    if (sat < plan_count(k)) {
      gnss_signal_t f = sid_from_code_index((code_t)code, sat);
      CHECK((int32_t)f.code == code && f.sat == plan_first(k) + sat, "index to signal");
      CHECK(sid_valid(f) && sid_to_code_index(f) == sat, "an index maps to a valid signal and back");
    }
    /* the L1 and L5 representatives belong to the same constellation */
    code_t l1 = sid_to_l1_code(sid), l5 = sid_to_l5_code(sid);
    CHECK(plan_cons(l1) == k, "the L1 code belongs to the same constellation");
    CHECK(k == CONSTELLATION_SBAS || k == CONSTELLATION_GLO ? l5 == CODE_INVALID : plan_cons(l5) == k, "the L5 code belongs to the same constellation");
  } else {
    CHECK(sid_to_l1_code(sid) == CODE_INVALID && sid_to_l5_code(sid) == CODE_INVALID, "an invalid signal has no representative code");
  }
  if (sid_valid(sid)) {
    uint16_t i = sid_to_code_index(sid);
    CHECK(i < plan_count(plan_cons(code)), "the index is below the number of satellites");
    gnss_signal_t b = sid_from_code_index((code_t)code, i);
    CHECK((int32_t)b.code == code && b.sat == sat, "signal to index and back");
    if (IS_SBAS(sid)) {
      sbas_system_t s = get_sbas_system(sid);
      sbas_system_t w = sat == 131 || sat == 133 || sat == 138   ? SBAS_WAAS
                        : sat == 123 || sat == 126 || sat == 136 ? SBAS_EGNOS
                        : sat == 127 || sat == 128               ? SBAS_GAGAN
                        : sat == 129 || sat == 137               ? SBAS_MSAS
                                                                 : SBAS_NONE;
      CHECK(s == w, "SBAS provider of each PRN");
    }
  }
  int32_t k = vp_s32();
  CHECK(constellation_valid((constellation_t)k) == (k >= 0 && k < 6), "exactly six constellations are valid");
  CHECK(plan_cons(constellation_to_l1_code((constellation_t)k)) == (k >= 0 && k < 6 ? k : CONSTELLATION_INVALID), "L1 code of a constellation");
  if (k >= 0 && k < 6) {
    CHECK(constellation_to_sat_count((constellation_t)k) == plan_count(k), "number of satellites of a constellation");
  }
  CHECK(char_to_constellation(constellation_to_char((constellation_t)k)) == (k >= 0 && k < 6 ? k : CONSTELLATION_INVALID), "constellation letter and back");
  char c = (char)vp_u8();
  constellation_t kc = char_to_constellation(c);
  CHECK(kc == CONSTELLATION_INVALID || constellation_to_char(kc) == c, "each letter names one constellation");
  WITNESS("valid SBAS", sid_valid(sid) && code == CODE_SBAS_L5Q && sat == 137);
  WITNESS("invalid", code == -1 && k == -1);
}
