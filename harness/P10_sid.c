/* Order, equality, hash and text forms. */
#include <swiftnav/signal.h>
#include "sigplan.h"
#include "vp.h"
static gnss_signal_t any(void) {
  gnss_signal_t s = {vp_u16(), (code_t)vp_srange(-1, CODE_COUNT - 1)};
  return s;
}
#if PART == 0
static int sg(int v) { return v < 0 ? -1 : v > 0; }
void harness(void) {
  gnss_signal_t a = any(), b = any();
  bool eq = a.code == b.code && a.sat == b.sat;
  int ab = sid_compare(a, b);
  CHECK(cmp_sid_sid(&a, &b) == ab, "both comparison functions agree");
  CHECK((ab == 0) == eq, "comparison is zero exactly for equal signals");
  CHECK(sid_is_equal(a, b) == eq, "equality is field equality");
  CHECK((sid_hash(a) == sid_hash(b)) == eq, "distinct signals have distinct hashes");
  CHECK(sg(sid_compare(b, a)) == -sg(ab), "comparison is antisymmetric");
  int ka = plan_cons(a.code), kb = plan_cons(b.code);
  int w = ka != kb ? (ka < kb ? -1 : 1) : a.code != b.code ? (a.code < b.code ? -1 : 1) : a.sat != b.sat ? (a.sat < b.sat ? -1 : 1) : 0;
  CHECK(sg(ab) == w, "order is by constellation, then code, then satellite");
  WITNESS("constellation order", ab < 0 && a.code > b.code && sid_valid(a) && sid_valid(b));
}
#elif PART == 1
/* text form of any signal, any suffix of up to one character, any code value */
static void one(gnss_signal_t s) {
  char buf[SID_STR_LEN_MAX + 1];
  const char guard = 0x5a;
  for (int i = 0; i <= SID_STR_LEN_MAX; i++) {
    buf[i] = guard;
  }
  int n = sid_to_string(buf, SID_STR_LEN_MAX, s);
  CHECK(n > 0 && n < SID_STR_LEN_MAX, "text fits the buffer");
  CHECK(buf[SID_STR_LEN_MAX] == guard, "nothing is written behind the buffer");
  CHECK(buf[n] == 0, "text is terminated");
  const char *name = code_valid(s.code) ? code_to_string(s.code) : "?";
  int k = 0;
  for (; k < 12 && name[k]; k++) {
    CHECK(buf[k] == name[k], "text starts with the code name");
  }
  CHECK(buf[k] == ' ', "then a blank");
  /* then the satellite number in decimal without leading zeros */
  uint32_t v = 0;
  for (int i = k + 1; i < SID_STR_LEN_MAX && buf[i] != 0; i++) {
    CHECK(buf[i] >= '0' && buf[i] <= '9', "the number has digits only");
    v = v * 10 + (uint32_t)(buf[i] - '0');
    CHECK(i < n, "no terminator inside the text");
  }
  CHECK(v == s.sat && n > k + 1, "the number is the satellite number");
  CHECK(buf[k + 1] != '0' || n == k + 2, "no leading zeros");
#ifdef LO
  WITNESS("five digits", s.sat >= 10000 && s.code == HI - 1);
#else
  WITNESS("unknown code", s.sat == 65535);
#endif
}
void harness(void) {
  gnss_signal_t s = {vp_u16(), (code_t)vp_s32()};
#ifdef LO
  /* one code at a time, so that the table element is the same for all satellites */
  int which = vp_srange(LO, HI - 1);
  for (int c = LO; c < HI; c++) {
    if (which == c) {
      s.code = (code_t)c;
      one(s);
    }
  }
#else
  ASSUME(s.code < 0 || s.code >= CODE_COUNT);
  one(s);
#endif
}
#else
/* names: any string of up to 11 characters parses to the value whose name it is */
static bool same(const char *a, const char *b) {
  for (int i = 0; i < 13; i++) {
    if (a[i] != b[i]) {
      return false;
    }
    if (a[i] == 0) {
      return true;
    }
  }
  return false;
}
void harness(void) {
  char s[13];
  for (int i = 0; i < 12; i++) {
    s[i] = (char)vp_u8();
  }
  s[12] = 0;
#if PART == 2
  int got = code_string_to_enum(s), n = 0, want = CODE_INVALID;
  for (int c = 0; c < CODE_COUNT; c++) {
    if (same(s, code_to_string((code_t)c))) {
      n++;
      want = c;
    }
  }
  for (int c = 0; c < CODE_COUNT; c++) {
    const char *nm = code_to_string((code_t)c);
    int k = 0;
    while (nm[k] != 0) {
      k++;
    }
    CHECK(k >= 3 && k <= SID_STR_LEN_MAX - 1 - 1 - 5, "a code name leaves room for a blank and five digits");
  }
  CHECK(n <= 1, "code names are unique");
  CHECK(got == want, "a code name parses to its code, anything else to invalid");
  CHECK(code_string_to_enum(code_to_string(CODE_INVALID)) == CODE_INVALID, "the name of the invalid code is no code's name");
  WITNESS("a code", want == CODE_BDS3_B3X);
  WITNESS("no code", want == CODE_INVALID && s[0] == 'G' && s[9] != 0);
#elif PART == 3
  int got = constellation_string_to_enum(s), want = CONSTELLATION_INVALID, n = 0;
  for (int c = 0; c < CONSTELLATION_COUNT; c++) {
    if (same(s, constellation_to_string((constellation_t)c))) {
      n++;
      want = c;
    }
  }
  CHECK(n <= 1, "constellation names are unique");
  CHECK(got == want, "a constellation name parses to its constellation, anything else to invalid");
  WITNESS("one", want == CONSTELLATION_GAL);
  got = sub_constellation_string_to_enum(s), want = SUB_CONSTELLATION_INVALID, n = 0;
  for (int c = 0; c < SUB_CONSTELLATION_COUNT; c++) {
    const char *nm = sub_constellation_to_string((sub_constellation_t)c);
    if (same(s, nm)) {
      n++;
      want = c;
    }
    constellation_t k = sub_constellation_to_constellation((sub_constellation_t)c);
    const char *kn = constellation_to_string(k);
    CHECK(nm[0] == kn[0] && nm[1] == kn[1] && nm[2] == kn[2], "a sub-constellation belongs to the constellation it is named after");
  }
  CHECK(n <= 1, "sub-constellation names are unique");
  CHECK(got == want, "a sub-constellation name parses to itself, anything else to invalid");
  WITNESS("sub", want == SUB_CONSTELLATION_BDS3);
  /* the name of an invalid value is not the name of a valid one */
  int32_t k = vp_s32();
  if (k < 0 || k >= CONSTELLATION_COUNT) {
    CHECK(constellation_string_to_enum(constellation_to_string((constellation_t)k)) == CONSTELLATION_INVALID, "invalid constellation has no name");
  }
  if (k < 0 || k >= SUB_CONSTELLATION_COUNT) {
    CHECK(sub_constellation_string_to_enum(sub_constellation_to_string((sub_constellation_t)k)) == SUB_CONSTELLATION_INVALID, "invalid sub-constellation has no name");
  }
#endif
}
#endif
