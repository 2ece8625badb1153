/* Week number resolution. */
#include "vptime.h"
#if PART == 0
void harness(void) {
  uint16_t raw = vp_u16(), ref = vp_u16();
  ASSUME(ref < 65536 - 1024);
  if (raw < 1024) {
    uint16_t w = gps_adjust_week_cycle(raw, ref);
    CHECK(w % 1024 == raw, "resolved week is congruent to the broadcast week");
    CHECK(w >= ref && w - ref < 1024, "resolved week is the first at or after the reference");
  }
  if (raw < 256) {
    uint16_t w = gps_adjust_week_cycle256(raw, ref);
    CHECK(w % 256 == raw, "resolved week is congruent to the 8-bit broadcast week");
    CHECK(w >= ref && w - ref < 256, "resolved week is the first at or after the reference");
  }
  if (raw >= ref) {
    CHECK(gps_adjust_week_cycle(raw, ref) == raw && gps_adjust_week_cycle256(raw, ref) == raw, "a full week at or after the reference is kept");
  }
  WITNESS("rollover", raw == 3 && ref == 2300);
}
#else
void harness(void) {
  gps_time_t t = vp_time(-32768, 32767), ref = vp_time(-1, 32766);
  const gps_time_t t0 = t;
  bool ok = gps_time_match_weeks_safe(&t, &ref);
  CHECK(t.tow == t0.tow, "the time of week is kept");
  if (ref.wn == WN_UNKNOWN) {
    CHECK(ok && t.wn == t0.wn, "an unknown reference changes nothing");
  } else {
    double d = (t.tow - ref.tow) + (double)(t.wn - ref.wn) * W;
    CHECK(d >= -W / 2 && d <= W / 2, "the result is within half a week of the reference");
    CHECK(ok == (t.wn >= 0), "success unless the result lies before the GPS epoch");
    if (t.wn >= 0) {
      gps_time_t u = t0;
      gps_time_match_weeks(&u, &ref);
      CHECK(u.wn == t.wn && u.tow == t.tow, "both versions agree");
    }
  }
  WITNESS("before", t.wn == ref.wn - 1 && ref.wn == 100);
  uint16_t wr = vp_u16();
  CHECK(gps_current_time_valid_with_wn_ref(&t0, wr) == (t0.wn >= 0 && t0.wn >= wr && t0.wn < wr + 1023), "current means within 1023 weeks from the reference");
  CHECK(gps_current_time_valid(&t0) == (t0.wn >= 1876 && t0.wn < 1876 + 1023), "current by default means within 1023 weeks from week 1876");
}
#endif
