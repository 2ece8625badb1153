/* Satellite clock, group delay and SBAS state. */
#include <swiftnav/ephemeris.h>
#include <swiftnav/glo_map.h>
#include "sigplan.h"
#include "vptime.h"
static ephemeris_t e;
#ifdef CODE
static gps_time_t t;
static double clk, rate, pos[3], vel[3], acc[3];
#endif
void harness(void) {
  memset(&e, 0, sizeof e);
#if PART == 0 /* SBAS: position, velocity, acceleration, clock */
  e.sid.sat = (uint16_t)(120 + vp_range(0, 38));
  e.sid.code = CODE;
  ephemeris_xyz_t *x = &e.data.xyz;
  for (int i = 0; i < 3; i++) {
    x->pos[i] = vp_dbl(-5e7, 5e7), x->vel[i] = vp_dbl(-1e4, 1e4), x->acc[i] = vp_dbl(-10, 10);
  }
  x->a_gf0 = vp_dbl(-1e-3, 1e-3), x->a_gf1 = vp_dbl(-1e-6, 1e-6);
  t = vp_time(0, 32767), e.toe = vp_time(0, 32767);
  CHECK(calc_sat_state_n(&e, &t, MEO, pos, vel, acc, &clk, &rate) == 0, "the state is computed");
  const double dt = span(&t, &e.toe), want = x->a_gf0 + x->a_gf1 * dt, s = dt - want;
  CHECK_EQ(clk, want, 1e-9, "clock error is the offset plus the drift times the time since reference");
  CHECK_EQ(rate, x->a_gf1, 1e-18, "clock rate is the drift");
  for (int i = 0; i < 3; i++) {
    CHECK_EQ(pos[i], x->pos[i] + s * (x->vel[i] + s * x->acc[i] / 2), 1e-6 + 1e-9 * fabs(pos[i]), "position is the quadratic of the time since reference");
    CHECK_EQ(vel[i], x->vel[i] + s * x->acc[i], 1e-6 + 1e-9 * fabs(vel[i]), "velocity is its derivative");
    CHECK_EQ(acc[i], x->acc[i], 1e-12, "acceleration is its second derivative");
  }
  WITNESS("next week", t.wn == e.toe.wn + 1 && dt > 0 && dt < 60);
#elif PART == 1 /* broadcast polynomial of a Keplerian ephemeris, circular orbit: no relativistic term */
  e.sid.sat = (uint16_t)(1 + vp_range(0, 9) + (CODE == CODE_QZS_L1CA ? 192 : 0));
  e.sid.code = CODE;
  ephemeris_kepler_t *k = &e.data.kepler;
  k->sqrta = 5153.5, k->inc = 1, k->w = 0.5;
  k->af0 = vp_dbl(-1e-3, 1e-3), k->af1 = vp_dbl(-1e-8, 1e-8), k->af2 = vp_dbl(-1e-14, 1e-14);
  const double g0 = vp_dbl(-1e-7, 1e-7), g1 = vp_dbl(-1e-7, 1e-7);
  k->tgd.gps_s[0] = (float)g0, k->tgd.gps_s[1] = (float)g1;
  e.toe.wn = 2000, e.toe.tow = 345600;
  t.wn = (int16_t)PICK(1999 + (int32_t)vp_range(0, 2)), t.tow = vp_dbl(0, WD);
  k->toc.wn = (int16_t)PICK(1999 + (int32_t)vp_range(0, 2)), k->toc.tow = vp_dbl(0, WD);
  const double dt = span(&t, &k->toc);
  CHECK(calc_sat_state_n(&e, &t, ORBIT, pos, vel, acc, &clk, &rate) == 0, "the state is computed");
  /* the group delay of the ephemeris' own signal */
#if TGDI == 1
  const double tgd = k->tgd.gps_s[1];
#else
  const double tgd = k->tgd.gps_s[0];
#endif
  CHECK_EQ(clk, k->af0 + k->af1 * dt + k->af2 * dt * dt - tgd * RATIO, 1e-12, "clock error is the broadcast polynomial less the group delay");
  CHECK_EQ(rate, k->af1 + 2 * k->af2 * dt, 1e-18, "clock rate is the derivative of the polynomial");
  WITNESS("week crossover", t.wn == 2000 && k->toc.wn == 2001);
#elif PART == 2 /* GLONASS clock */
  e.sid.sat = (uint16_t)(1 + vp_range(0, 23));
  e.sid.code = CODE;
  ephemeris_glo_t *g = &e.data.glo;
  /* position left at the origin: the orbit is of no interest here */
  g->tau = vp_dbl(-1e-3, 1e-3), g->gamma = vp_dbl(-1e-9, 1e-9);
  g->d_tau = vp_dbl(-1e-7, 1e-7);
  e.toe.wn = 2000 + (int16_t)vp_range(0, 100), e.toe.tow = vp_dbl(0, WD);
  t = e.toe;
  const int dw = DW;
  t.wn = (int16_t)(t.wn + dw), t.tow = vp_dbl(0, WD);
  const double dt = span(&t, &e.toe);
  ASSUME(dt >= -25 && dt <= 25);
  CHECK(calc_sat_state_n(&e, &t, MEO, pos, vel, acc, &clk, &rate) == 0, "the state is computed");
  CHECK_EQ(clk, g->gamma * dt - g->tau - (CODE == CODE_GLO_L2OF ? (float)g->d_tau : 0), 1e-12, "clock error is the negated bias plus the relative drift, less the group delay");
  CHECK_EQ(rate, g->gamma, 1e-18, "clock rate is the relative drift");
  WITNESS("before", dt < 0 || dw > 0);
#else /* group delay of every signal of a constellation */
  const double a = vp_dbl(-1e-7, 1e-7), b = vp_dbl(-1e-7, 1e-7);
  for (int c = 0; c < CODE_COUNT; c++) {
    if (plan_cons(c) != CONS || c == CODE_AUX_GPS || c == CODE_AUX_QZS || c == CODE_AUX_BDS || c == CODE_AUX_GAL) {
      continue;
    }
    static gnss_signal_t s;
    s.sat = CONS == CONSTELLATION_QZS ? 194 : 3, s.code = (code_t)c;
    float got = 7;
    memset(&e, 0, sizeof e);
    e.sid.sat = s.sat;
    const double f = plan_freq(c);
#if KIND == 4
    e.sid.code = CODE_GLO_L1OF;
    glo_map_set_slot_id(8, 3);
    e.data.glo.d_tau = a;
    const bool l2 = c == CODE_GLO_L2OF || c == CODE_GLO_L2P;
    CHECK(get_tgd_correction(&e, &s, &got) == 0, "the group delay is known");
    CHECK_EQ(got, l2 ? a : 0, 1e-13, "group delay of a GLONASS signal");
    WITNESS("L2P", c == CODE_GLO_L2P);
    (void)b, (void)f;
#else
    e.data.kepler.tgd.gps_s[0] = (float)a, e.data.kepler.tgd.gps_s[1] = (float)b;
    const double da = e.data.kepler.tgd.gps_s[0], db = e.data.kepler.tgd.gps_s[1];
    double want;
#if KIND == 3
    e.sid.code = CODE_BDS2_B1;
    /* TGD1 for B1 (and, for want of its own, B1C), TGD2 for the others, B3 is the reference */
    if (c == CODE_BDS3_B1CQ || c == CODE_BDS3_B1CX) {
      continue; /* no statement is made for these */
    }
    want = c == CODE_BDS2_B1 || c == CODE_BDS3_B1CI ? da : f == F_B3 ? 0 : db;
#else
    /* single-frequency correction: the ionosphere-free pair's delay times the squared frequency ratio */
    want = (f == F_L5) == (CONS != CONSTELLATION_GAL) ? db : da;
    want = want * (F_L1 / f) * (F_L1 / f);
    e.sid.code = CONS == CONSTELLATION_GPS ? CODE_GPS_L1CA : CONS == CONSTELLATION_QZS ? CODE_QZS_L1CA : CODE_GAL_E1B;
#endif
    CHECK(get_tgd_correction(&e, &s, &got) == 0, "the group delay is known");
    CHECK_EQ(got, want, 1e-13, "group delay of the signal");
    WITNESS("seen", got == (float)want && a != b);
#endif
  }
#endif
}
