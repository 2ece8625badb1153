/* GPS health words against the interface document's tables, for every word and code. */
#include <swiftnav/shm.h>
#include "vp.h"
/* component health codes of IS-GPS-200 table 20-VIII that affect a signal */
static bool bad_for(unsigned b, unsigned lo1, unsigned lo2, unsigned lo3) {
  return (b >= lo1 && b < lo1 + 3) || (b >= lo2 && b < lo2 + 3) || (b >= lo3 && b < lo3 + 3);
}
/* 0 unhealthy, 1 not unhealthy */
static bool ref6(uint8_t h, code_t code) {
  unsigned b = h & 0x1f;
  bool summary = (h >> 5) & 1;
  if (summary && (code == CODE_GPS_L1CA || code == CODE_AUX_GPS || code == CODE_GPS_L1P)) {
    return false;
  }
  if ((b >= 1 && b <= 3) || b >= 28) {
    return false;
  }
  switch ((int)code) {
    case CODE_GPS_L1CA: case CODE_AUX_GPS: case CODE_QZS_L1CA: case CODE_AUX_QZS:
      return !bad_for(b, 10, 19, 22);
    case CODE_GPS_L2CM: case CODE_GPS_L2CL: case CODE_GPS_L2CX:
    case CODE_QZS_L2CM: case CODE_QZS_L2CL: case CODE_QZS_L2CX:
      return !bad_for(b, 13, 19, 25);
    case CODE_GPS_L1P:
      return !bad_for(b, 4, 16, 22);
    case CODE_GPS_L2P:
      return !bad_for(b, 7, 16, 25);
    default:
      return true;
  }
}
void harness(void) {
  uint8_t h = vp_u8(), mask = vp_u8(), out = vp_u8();
  code_t code = (code_t)vp_srange(-1, CODE_COUNT);
  uint32_t w3 = vp_u32();
  shm_gps_decode_shi_ephemeris(w3, &out);
  CHECK(out == ((w3 >> 8) & 0x3f), "health bits of subframe 1 word 3");
  CHECK(check_6bit_health_word(h, code) == ref6(h, code), "six-bit health word");
  unsigned dhi = h >> 5;
  bool dhi_ok = dhi == 0 || ((mask >> dhi) & 1);
  CHECK(check_nav_dhi(h, mask) == dhi_ok, "data health indication, masked errors ignored");
  CHECK(check_8bit_health_word(h, code) == (dhi == 0 && ref6(h, code)), "eight-bit health word");
  CHECK(check_alma_page25_health_word(h, code) == (((h & 0x3f) == 0x1f) ? false : ref6(h, code)), "almanac page 25 health word");
  WITNESS("L2C weak", code == CODE_GPS_L2CM && h == 13);
  WITNESS("masked", dhi == 4 && mask == 0x10);
}
