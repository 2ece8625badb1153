/* GLONASS navigation strings 1 to 5: every parameter is its interface-document field times its scale; magnitudes carry a sign bit above them. */
#include <swiftnav/decode_glo.h>
#include "vpnav.h"
static glo_string_t s[6];
static uint8_t used[6][97];
static int ERR, ERRS[5];
static const glo_string_t *FRAME;
/* the string check is decided by P26 */
s8 error_detection_glo(const glo_string_t *string) { return (s8)(FRAME ? ERRS[string - FRAME] : ERR); }
static void bits(int n, int first, int width) {
  for (int i = first; i < first + width; i++) {
    used[n][i] = 1;
  }
}
static uint32_t raw(int n, int first, int width) {
  const uint32_t v = vp_range(0, width == 32 ? 0xffffffffu : (1u << width) - 1);
  s[n].word[(first - 1) / 32] += v << ((first - 1) % 32);
  return v;
}
/* unsigned field from bit `first` (the least significant) */
static double u(int n, int first, int width) {
  bits(n, first, width);
  const int low = 32 - (first - 1) % 32;
  if (width <= low) {
    return raw(n, first, width);
  }
  const double l = raw(n, first, low);
  return l + (double)raw(n, first + low, width - low) * p2(low);
}
/* magnitude with the sign above it */
static double m(int n, int first, int width) {
  const double v = u(n, first, width);
  bits(n, first + width, 1);
#ifdef NEG
  s[n].word[(first + width - 1) / 32] += 1u << ((first + width - 1) % 32);
  return -v;
#else
  return v;
#endif
}
static void set(int n, int first, int width, uint32_t v) {
  bits(n, first, width);
  s[n].word[(first - 1) / 32] += v << ((first - 1) % 32);
}
static void others(int n) {
  for (int i = 9; i <= 85; i++) {
    if (!used[n][i]) {
      raw(n, i, 1);
    }
  }
  raw(n, 1, 8);
  raw(n, 86, 11);
}
#ifdef FRAMES
static gps_time_t TOE;
static glo_time_t ASKED;
static const utc_params_t *ASKED_UTC;
gps_time_t glo2gps(const glo_time_t *t, const utc_params_t *p) {
  ASKED = *t;
  ASKED_UTC = p;
  return TOE;
}
static void frame(void) {
  const double pos[3] = {m(1, 9, 26), m(2, 9, 26), m(3, 9, 26)};
  ASSUME(pos[0] < 5e7 && pos[1] < 5e7 && pos[2] < 5e7);
  const uint32_t tb = vp_range(1, 95), b = u(2, 80, 1), l = u(3, 65, 1), nt = vp_range(1, 1461), n4 = u(5, 32, 5);
  ASSUME(n4 >= 1);
  set(2, 70, 7, tb), set(4, 16, 11, nt);
  set(4, 11, 5, 7);
  ephemeris_t e;
  memset(&e, 0x5a, sizeof e);
  for (int n = 1; n <= 5; n++) {
    set(n, 81, 4, n);
    ERRS[n - 1] = (int)vp_srange(-1, 1);
  }
  TOE.wn = 2000, TOE.tow = 1234;
  FRAME = &s[1];
  gnss_signal_t sid = {.sat = 7, .code = CODE_GLO_L2OF};
  utc_params_t p;
  decode_glo_ephemeris(FRAME, sid, &p, &e);
  const bool good = !ERRS[0] && !ERRS[1] && !ERRS[2] && !ERRS[3] && !ERRS[4];
  CHECK((e.valid != 0) == good, "valid exactly when all five strings are good");
  CHECK(e.sid.code == CODE_GLO_L2OF && e.sid.sat == 7, "signal");
  CHECK(e.source == EPH_SOURCE_GLO_FDMA, "source");
  if (good) {
    CHECK_EQ(ASKED.h * 3600.0 + ASKED.m * 60.0 + ASKED.s, tb * 900.0, 1e-9, "reference time of day");
    CHECK(ASKED.nt == nt && ASKED.n4 == n4 && ASKED_UTC == &p, "reference day");
    CHECK(e.toe.wn == 2000 && e.toe.tow == 1234, "reference time");
    CHECK(e.health_bits == (b | l), "health is what the strings say");
    for (int i = 0; i < 3; i++) {
      CHECK_EQ(e.data.glo.pos[i], pos[i] * p2(-11) * 1000, 1e-6, "position");
    }
    WITNESS("healthy", e.health_bits == 0);
  } else {
    CHECK(e.toe.wn == -1, "no reference time");
    WITNESS("one string missing", ERRS[4] == 1 && !ERRS[0]);
  }
}
#endif
static inline bool within(double v, double max) { return v <= max && v >= -max; }
void harness(void) {
#ifdef FRAMES
  frame();
#else
  ephemeris_t e;
  memset(&e, 0, sizeof e);
  e.sid.code = CODE_GLO_L1OF;
  e.sid.sat = 1;
  glo_time_t tk, toe;
  memset(&tk, 0, sizeof tk);
  memset(&toe, 0, sizeof toe);
  ephemeris_glo_t *g = &e.data.glo;
#if STRING >= 1 && STRING <= 3
  const int n = STRING, c = n - 1;
  const double pos = m(n, 9, 26), acc = m(n, 36, 4), vel = m(n, 41, 23);
  /* a step of the position is 2^-11 km, of the velocity 2^-20 km/s, of the acceleration 2^-30 km/s^2 */
  const bool pva = within(pos * p2(-11), 27000) && within(vel * p2(-20), 4.3) && within(acc * p2(-30), 6.2e-9);
#endif
#if MISMATCH
  const uint32_t id = u(STRING, 81, 4);
  ERR = (int)vp_srange(-1, 85);
  ASSUME(id != STRING || ERR != 0);
  others(STRING);
#elif STRING
  set(STRING, 81, 4, STRING);
#endif
#if MISMATCH
  uint8_t age = 0;
  float tau_gps = 0;
  const bool ok = STRING == 1   ? decode_glo_string_1(&s[1], &e, &tk)
                  : STRING == 2 ? decode_glo_string_2(&s[2], &e, &toe)
                  : STRING == 3 ? decode_glo_string_3(&s[3], &e, &toe)
                  : STRING == 4 ? decode_glo_string_4(&s[4], &e, &tk, &toe, &age)
                                : decode_glo_string_5(&s[5], &e, &tk, &toe, &tau_gps);
  CHECK(!ok, "a string with another number or a failed check is refused");
  WITNESS("corrected", id == STRING && ERR == 44);
#elif STRING == 1
  const double h = u(1, 72, 5), min = u(1, 66, 6), half = u(1, 65, 1);
  const uint32_t p1 = u(1, 77, 2);
  others(1);
  const uint32_t before = vp_range(0, 100000);
  e.fit_interval = before;
  const bool ok = decode_glo_string_1(&s[1], &e, &tk);
  CHECK(ok == (pva && h <= 23 && min <= 59), "refused exactly when a field is out of range");
  if (ok) {
    CHECK(tk.h == h && tk.m == min, "frame time");
    CHECK_EQ(tk.s, half * 30, 1e-9, "half minute");
    CHECK(e.fit_interval == (p1 == 1 ? 40 * 60 : p1 == 2 ? 55 * 60 : p1 == 3 ? 70 * 60 : before == 0 ? 70 * 60 : before), "interval and margin");
    WITNESS("45 minutes", p1 == 2 && half == 1);
  }
#elif STRING == 2
  const double tb = u(2, 70, 7);
  const uint32_t bad = u(2, 80, 1);
  others(2);
  const bool ok = decode_glo_string_2(&s[2], &e, &toe);
  CHECK(ok == (pva && tb >= 1 && tb <= 95), "refused exactly when a field is out of range");
  if (ok) {
    CHECK(e.health_bits == bad, "health");
    CHECK_EQ(toe.h * 3600.0 + toe.m * 60.0 + toe.s, tb * 900, 1e-9, "reference time");
    CHECK(toe.h < 24 && toe.m < 60 && toe.s >= 0 && toe.s < 60, "reference time fields in range");
    CHECK(g->iod == ((uint32_t)tb * 900) % 128, "issue of data");
    WITNESS("last", tb == 95);
  }
#elif STRING == 3
  const double gamma = m(3, 69, 10);
  const uint32_t bad = u(3, 65, 1);
  others(3);
  const bool ok = decode_glo_string_3(&s[3], &e, &toe);
  CHECK(ok == (pva && within(gamma, 1024)), "refused exactly when a field is out of range");
  if (ok) {
    CHECK(e.health_bits == bad, "health");
    CHECK_EQ(g->gamma, gamma * p2(-40), 1e-16, "gamma");
    WITNESS("something", gamma >= 1 || gamma <= -1);
  }
#elif STRING == 4
  const double tau = m(4, 59, 21), dtau = m(4, 54, 4);
  const uint32_t en = u(4, 49, 5), slot = u(4, 11, 5), nt = u(4, 16, 11), model = u(4, 9, 2);
#ifdef FT
  const uint32_t ft = u(4, 30, 4);
#else
  const uint32_t ft = 3;
  set(4, 30, 4, 3);
#endif
  others(4);
  uint8_t age = 99;
  const bool ok = decode_glo_string_4(&s[4], &e, &tk, &toe, &age);
#ifdef FT
  static const double ura[16] = {1, 2, 2.5, 4, 5, 7, 10, 12, 14, 16, 32, 64, 128, 256, 512, -1};
  if (ok) {
    CHECK_EQ(e.ura, ura[PICK(ft)], 1e-6, "accuracy");
    WITNESS("none", ft == 15);
  }
#else
  CHECK(ok == (within(tau, 2097152) && within(dtau, 15) && slot >= 1 && slot <= 28 && nt >= 1 && nt <= 1461), "refused exactly when a field is out of range");
  if (ok) {
    CHECK_EQ(g->tau, tau * p2(-30), 1e-14, "tau");
    CHECK_EQ(g->d_tau, dtau * p2(-30), 1e-14, "delta tau");
    CHECK(age == en, "age of data");
    CHECK(e.sid.sat == slot, "slot");
    CHECK(tk.nt == nt && toe.nt == nt, "day");
    WITNESS("last day", nt == 1461);
  }
#endif
  (void)model;
#elif STRING == 5
  const double n4 = u(5, 32, 5), tau_gps = m(5, 10, 21);
  others(5);
  float t = 99;
  const bool ok = decode_glo_string_5(&s[5], &e, &tk, &toe, &t);
  CHECK(ok == (n4 >= 1 && within(tau_gps * p2(-30), 1.9e-3)), "refused exactly when a field is out of range");
  if (ok) {
    CHECK(tk.n4 == n4 && toe.n4 == n4, "four-year period");
    CHECK_EQ(t, tau_gps * p2(-30), 1e-10, "tau GPS");
    WITNESS("31", n4 == 31);
  }
#endif
#if STRING >= 1 && STRING <= 3 && !MISMATCH
  if (ok) {
    CHECK_EQ(g->pos[c], pos * p2(-11) * 1000, 1e-6, "position");
    CHECK_EQ(g->vel[c], vel * p2(-20) * 1000, 1e-9, "velocity");
    CHECK_EQ(g->acc[c], acc * p2(-30) * 1000, 1e-16, "acceleration");
  }
#endif
#endif
}
