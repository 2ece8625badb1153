/* Single point positioning: the bookkeeping around the numerical kernels. The least squares kernel and the
 * geodetic conversions are replaced by stand-ins with arbitrary (or, for RAIM, prescribed) results. */
#include <math.h>
#include <swiftnav/common.h>
#include <swiftnav/constants.h>
#include <swiftnav/coord_system.h>
#include <swiftnav/gnss_time.h>
#include <swiftnav/linear_algebra.h>
#include <swiftnav/nav_meas.h>
#include <swiftnav/sid_set.h>
#include <swiftnav/signal.h>
#include <swiftnav/single_epoch_solver.h>
#include "vptime.h"
#define MAXM 12
static navigation_measurement_t nm[MAXM];
static int ns; /* states of the epoch under test */
static double c_light = GPS_C;
static void meas(int i, code_t code, u16 sat) {
  static const s8 dir[MAXM][3] = {{3, 1, 1}, {1, 3, 1}, {1, 1, 3}, {-3, 1, 1}, {1, -3, 1}, {1, 1, -3}, {3, 3, -1}, {-1, 3, 3}, {3, -1, 3}, {2, 1, 2}, {1, 2, 2}, {2, 2, 1}};
  memset(&nm[i], 0, sizeof(nm[i]));
  nm[i].sid.code = code;
  nm[i].sid.sat = sat;
  for (int k = 0; k < 3; k++) {
    nm[i].sat_pos[k] = 7e6 * dir[i][k];
  }
  nm[i].sat_vel[0] = 100 * i;
  nm[i].raw_pseudorange = 1e9 * (i + 1);
  nm[i].cn0 = 40;
  nm[i].elevation = 45;
  nm[i].lock_time = 10;
  nm[i].flags = NAV_MEAS_FLAG_CODE_VALID | NAV_MEAS_FLAG_PHASE_VALID | NAV_MEAS_FLAG_MEAS_DOPPLER_VALID | NAV_MEAS_FLAG_CN0_VALID;
}
static int constell(code_t c) { return c == CODE_GPS_L1CA || c == CODE_GPS_L2CM ? 0 : c == CODE_GAL_E1B || c == CODE_GAL_E7I ? 1 : 2; }
static gps_time_t tor = {.tow = 200000, .wn = 2000};
static obs_mask_config_t mask;
static gnss_solution soln;
static dops_t dops;
static gnss_sid_set_t removed;

/* stand-ins */
#if SLICE != 2
static double P[4], VEL[4], HM[MAXM * MAXM], VM[MAXM * MAXM], VV[MAXM * MAXM], LLH[3], NED[3], D[3];
static int rounds, calls, conv, vel_calls, h_calls, rpos = 0, rvel = 0, rh = 0;
#endif
#if SLICE == 0
int matrix_wlsq_solve(u32 n, u32 m, const double *A, const double *b, const double *w, double *x, double *V) {
  (void)A, (void)b, (void)w, (void)n;
  if (x == NULL) { /* geometry only */
    h_calls++;
    memcpy(V, HM, m * m * sizeof(double));
    return rh;
  }
  if (conv) { /* velocity */
    vel_calls++;
    if (rvel >= 0) {
      memcpy(x, VEL, sizeof(VEL));
      for (u32 i = 4; i < m; i++) x[i] = 0;
      memcpy(V, VV, m * m * sizeof(double));
    }
    return rvel;
  }
  if (rpos < 0) return rpos;
  memcpy(V, VM, m * m * sizeof(double));
  for (u32 i = 0; i < m; i++) x[i] = calls == 0 && i < 4 ? P[i] : calls < rounds && i == 0 ? 1.0 : 0;
  calls++;
  if (calls > rounds) conv = 1;
  return 0;
}
void wgsecef2llh(const double ecef[3], double llh[3]) {
  (void)ecef;
  memcpy(llh, LLH, sizeof(LLH));
}
void wgsecef2ned(const double v[3], const double ref[3], double ned[3]) {
  CHECK_EQ(ref[0], P[0], 0, "velocity rotated at the solved position");
  (void)v;
  memcpy(ned, NED, sizeof(NED));
}
void ecef2ned_matrix(const double ref[3], double M[3][3]) {
  (void)ref;
  memset(M, 0, 9 * sizeof(double));
  memcpy(M[2], D, sizeof(D));
}
void harness(void) {
  static const code_t codes[6] = {CODE_GPS_L1CA, CODE_GPS_L1CA, CODE_GPS_L1CA, CODE_GPS_L2CM, CODE_GAL_E1B, CODE_GPS_L1CA};
  static const u16 sats[6] = {3, 7, 9, 9, 5, 12};
  for (int i = 0; i < 6; i++) meas(i, codes[i], sats[i]);
  ns = 5;
  rounds = 1;
#if FAIL == 1 /* the position kernel fails */
  rpos = -1;
#elif FAIL == 2 /* the geometry kernel fails */
  rh = -1;
#elif FAIL == 3 /* the iteration never settles */
  rounds = 1000;
#elif FAIL == 4 /* the velocity kernel fails */
  rvel = -1;
#elif FAIL == 5 /* a signal lacks a Doppler measurement */
  nm[2].flags &= ~NAV_MEAS_FLAG_MEAS_DOPPLER_VALID;
  nm[2].flags |= NAV_MEAS_FLAG_COMP_DOPPLER_VALID;
#endif
#if FAIL == 3
  P[0] = 4e6, P[1] = 1e6, P[2] = 3e6, P[3] = 100;
#else
  P[0] = vp_dbl(1, 1e7), P[1] = vp_dbl(-1e7, 1e7), P[2] = vp_dbl(-1e7, 1e7), P[3] = vp_dbl(-1e6, 1e6);
#endif
  for (int i = 0; i < 4; i++) VEL[i] = vp_dbl(-2000, 2000);
  for (int i = 0; i < 3; i++) {
    LLH[i] = vp_dbl(-1e7, 1e7), NED[i] = vp_dbl(-1e4, 1e4), D[i] = vp_dbl(-1, 1);
  }
  /* covariances: only the entries a solution reports are free */
  for (int i = 0; i < 4; i++) {
    for (int j = 0; j < 4; j++) {
      HM[i * ns + j] = i == j ? vp_dbl(0.001, 1000) : i < j && j < 3 ? vp_dbl(-100, 100) : 0;
      VM[i * ns + j] = i <= j ? vp_dbl(-1e4, 1e4) : 7;
      VV[i * ns + j] = i <= j ? vp_dbl(-1e4, 1e4) : 7;
    }
  }
  for (int i = 0; i < 3; i++) {
    for (int j = 0; j < i; j++) HM[i * ns + j] = HM[j * ns + i];
  }
  soln.valid = vp_u8() & 1;
  soln.velocity_valid = vp_u8() & 1;
  const bool novel = NOVEL;
  const s8 ret = calc_PVT(6, nm, &tor, true, novel, &mask, ALL_CONSTELLATIONS, &soln, &dops, &removed);
  CHECK(ret >= -7 && ret <= 2, "documented return code");
  CHECK((ret >= 0) == (soln.valid == 1), "the solution is flagged valid exactly when the code is not negative");
#if FAIL == 1 || FAIL == 2 || FAIL == 3
  CHECK(ret == PVT_UNCONVERGED, "a failed iteration is reported");
  CHECK(!soln.valid, "no solution");
  return;
#endif
  const double g2 = HM[0] + HM[ns + 1] + HM[2 * ns + 2] + HM[3 * ns + 3];
  const bool novs = novel || FAIL == 4 || FAIL == 5;
  const double s2 = novs ? 0 : VEL[0] * VEL[0] + VEL[1] * VEL[1] + VEL[2] * VEL[2], gd = sqrt(g2), sp = sqrt(s2);
  const bool geo = gd > 20, alt = LLH[2] < -1000 || LLH[2] > 1000000, fast = sp >= 514.444444;
  if (geo) {
    CHECK(ret == PVT_PDOP_TOO_HIGH, "bad geometry is refused");
  } else if (alt) {
    CHECK(ret == PVT_BAD_ALTITUDE, "an altitude below -1 km or above 1000 km is refused");
  } else if (fast) {
    CHECK(ret == PVT_VELOCITY_LOCKOUT, "a speed of 1000 knots or more is refused");
  } else {
    CHECK(ret == PVT_CONVERGED_NO_RAIM, "otherwise the solution is released, without RAIM");
  }
  if (ret < 0) {
    CHECK(!soln.velocity_valid, "a refused solution has no valid velocity");
    for (int i = 0; i < 3; i++) {
      CHECK(soln.pos_ecef[i] == 0 && soln.pos_llh[i] == 0 && soln.vel_ecef[i] == 0 && soln.vel_ned[i] == 0, "a refused solution discloses nothing");
    }
    return;
  }
  CHECK(soln.velocity_valid == (novs ? 0 : 1), "the velocity is flagged valid exactly when it was asked for and solved");
  CHECK(soln.n_sats_used == 5 && soln.n_sigs_used == 6, "the counts count the measurements used");
  for (int i = 0; i < 3; i++) {
    CHECK_EQ(soln.pos_ecef[i], P[i], 1e-6, "the solved position");
    CHECK_EQ(soln.pos_llh[i], LLH[i], 0, "the geodetic position");
    CHECK_EQ(soln.vel_ecef[i], novs ? 0 : VEL[i], 1e-9, "the solved velocity");
    CHECK_EQ(soln.vel_ned[i], NED[i], 0, "the local velocity");
  }
  int k = 0;
  for (int i = 0; i < 3; i++) {
    for (int j = i; j < 3; j++, k++) {
      CHECK_EQ(soln.err_cov[k], VM[i * ns + j], 0, "position covariance");
      if (!novs) CHECK_EQ(soln.vel_cov[k], VV[i * ns + j], 0, "velocity covariance");
    }
  }
  CHECK_EQ(soln.err_cov[6], gd, 1e-9, "the covariance carries the GDOP");
  CHECK_EQ(dops.gdop, gd, 1e-9, "GDOP");
  CHECK_EQ(dops.pdop, sqrt(HM[0] + HM[ns + 1] + HM[2 * ns + 2]), 1e-9, "PDOP");
  CHECK_EQ(dops.tdop, sqrt(HM[3 * ns + 3]), 1e-9, "TDOP");
  CHECK_EQ(soln.clock_offset, P[3] / c_light, 1e-12, "clock offset in seconds");
  CHECK_EQ(soln.clock_offset_var, VM[3 * ns + 3] / c_light / c_light, 1e-20, "clock offset variance");
  if (!novs) {
    CHECK_EQ(soln.clock_drift, VEL[3] / c_light, 1e-15, "clock drift");
    CHECK_EQ(soln.clock_drift_var, VV[3 * ns + 3] / c_light / c_light, 1e-20, "clock drift variance");
  } else {
    CHECK_EQ(soln.clock_drift, 0.0, 0, "no clock drift without a velocity");
    CHECK_EQ(soln.clock_drift_var, 0.0, 0, "no clock drift variance without a velocity");
  }
  CHECK_EQ(soln.time.tow, tor.tow - P[3] / c_light, 1e-9, "the time of the solution is the reception time less the clock offset");
  CHECK(soln.time.wn == tor.wn, "week of the solution");
}
#endif

#if SLICE == 1 /* which measurements reach the kernel */
static u32 kn, km, kcalls;
static double kb[MAXM], kA[MAXM * MAXM];
int matrix_wlsq_solve(u32 n, u32 m, const double *A, const double *b, const double *w, double *x, double *V) {
  (void)w, (void)x, (void)V;
  kn = n, km = m, kcalls++;
  CHECK(n <= MAXM && m <= MAXM, "no more rows than measurements");
  memcpy(kb, b, n * sizeof(double));
  memcpy(kA, A, n * m * sizeof(double));
  return -1;
}
static const code_t C_[MAXM] = {
#if STRAT == 2 /* enough satellites for the preference to matter */
    CODE_GPS_L2CM, CODE_GPS_L1CA, CODE_GPS_L1CA, CODE_GPS_L1CA, CODE_GPS_L1CA, CODE_GAL_E1B, CODE_GPS_L1CA, CODE_GPS_L2CM, CODE_GPS_L2CM, CODE_GLO_L1OF, CODE_GPS_L1CA, CODE_GPS_L2CM
#else
    CODE_GPS_L1CA, CODE_GPS_L2CM, CODE_GAL_E1B, CODE_GPS_L1CA, CODE_GAL_E7I, CODE_GLO_L1OF, CODE_GPS_L1CA, CODE_GPS_L2CM, CODE_GPS_L1CA, CODE_GAL_E1B
#endif
};
static const u16 S_[MAXM] = {
#if STRAT == 2
    4, 4, 5, 6, 7, 3, 8, 8, 9, 11, 12, 13
#else
    3, 3, 7, 9, 7, 2, 12, 14, 32, 36
#endif
};
#define NM (STRAT == 2 ? 12 : 10)
void harness(void) {
  static const int freeset[] = FREES;
  for (int i = 0; i < NM; i++) meas(i, C_[i], S_[i]);
  for (unsigned k = 0; k < sizeof(freeset) / sizeof(freeset[0]); k++) nm[freeset[k]].cn0 = vp_dbl(10, 60);
  mask.cn0_mask.enable = MASKED;
  mask.cn0_mask.threshold_dbhz = 30;
  soln.valid = 1;
  /* oracle */
  bool use[MAXM];
  int col[3] = {-1, -1, -1}, n = 0, m = 3, sats = 0, who[MAXM];
  for (int i = 0; i < NM; i++) {
    const int c = constell(C_[i]);
    bool seen = false;
    for (int j = 0; j < i; j++) seen = seen || (use[j] && constell(C_[j]) == c && S_[j] == S_[i]);
    use[i] = STRAT == GPS_ONLY ? c == 0 : STRAT == ALL_CONSTELLATIONS ? true : STRAT == L1_ONLY ? C_[i] == CODE_GPS_L1CA || C_[i] == CODE_GAL_E1B : C_[i] == CODE_GPS_L1CA || (sats <= m + 2 && !seen);
    if (use[i] && MASKED) use[i] = nm[i].cn0 > 30;
    if (!use[i]) continue;
    sats += !seen;
    if (col[c] < 0) col[c] = m++;
    who[n++] = i;
  }
  const s8 ret = calc_PVT(NM, nm, &tor, NORAIM, true, &mask, (enum processing_strategy_t)STRAT, &soln, &dops, &removed);
  CHECK(!soln.valid, "no solution without a successful kernel");
  if (sats < m) {
    CHECK(ret == PVT_INSUFFICENT_MEAS, "fewer satellites than unknowns is refused");
    CHECK(kcalls == 0, "and nothing is solved");
    return;
  }
  CHECK(ret == (NORAIM ? PVT_UNCONVERGED : n < m + 2 ? PVT_RAIM_REPAIR_IMPOSSIBLE : ret), "a failed iteration is reported");
  CHECK(ret < 0, "a failed kernel gives no solution");
  CHECK(kcalls >= 1, "the kernel was asked");
  if (!NORAIM) return;
  CHECK((int)kn == n && (int)km == m, "one row per measurement selected, one clock per constellation in use");
  for (int j = 0; j < n; j++) {
    const double d = kb[j] - nm[who[j]].raw_pseudorange;
    CHECK(d < 1e8 && d > -1e8, "the measurements selected, in order");
    for (int k = 3; k < m; k++) CHECK(kA[j * m + k] == (k == col[constell(C_[who[j]])] ? 1 : 0), "each measurement maps to the clock of its constellation");
  }
}
#endif

#if SLICE == 2 /* RAIM: the position kernel always settles at the same place; the residuals are free */
static int step;
static double e[MAXM], PX = 6.4e6;
int matrix_wlsq_solve(u32 n, u32 m, const double *A, const double *b, const double *w, double *x, double *V) {
  (void)A, (void)b, (void)w, (void)n;
  for (u32 i = 0; i < m * m; i++) V[i] = i % (m + 1) == 0 ? 1 : 0;
  if (x == NULL) {
    step = 0;
    return 0;
  }
  for (u32 i = 0; i < m; i++) x[i] = 0;
  if (step == 0) x[0] = PX;
  step++;
  return 0;
}
static double pred(int i) { /* range to the settled position */
  const double dx = nm[i].sat_pos[0] - PX, dy = nm[i].sat_pos[1], dz = nm[i].sat_pos[2];
  const double a = GPS_OMEGAE_DOT * (sqrt(dx * dx + dy * dy + dz * dz) / GPS_C);
  const double x = nm[i].sat_pos[0] + a * nm[i].sat_pos[1] - PX, y = nm[i].sat_pos[1] - a * nm[i].sat_pos[0];
  return sqrt(x * x + y * y + dz * dz);
}
static double var(int i) {
  const double s = sin(nm[i].elevation * D2R);
  return 0.4 + 780 * exp(-nm[i].cn0 / 6.5) + 0.1 / (s * s);
}
/* q is compared with a bound; a margin keeps the claim away from rounding */
static bool below(double q, double lim) {
  ASSUME(q < lim - 0.01 || q > lim + 0.01);
  return q < lim;
}
#define NM (NGPS + NGAL)
void harness(void) {
  static const int freeset[] = FREES;
  const int m = NGAL ? 5 : 4;
  double q[MAXM], sum = 0, gsum = 0;
  for (int i = 0; i < NM; i++) {
    meas(i, i < NGPS ? CODE_GPS_L1CA : CODE_GAL_E1B, 3 + i);
    nm[i].cn0 = 48 - i;
    nm[i].elevation = 30 + 4 * i;
    q[i] = 0;
    e[i] = 0;
  }
  for (unsigned k = 0; k < sizeof(freeset) / sizeof(freeset[0]); k++) {
    const int i = freeset[k];
    e[i] = vp_dbl(-100, 100);
    q[i] = e[i] * e[i] / var(i);
  }
  for (int i = 0; i < NM; i++) {
    nm[i].raw_pseudorange = pred(i) + e[i];
    sum += q[i];
    if (i < NGPS) gsum += q[i];
  }
  const s8 ret = calc_PVT(NM, nm, &tor, NORAIM, true, &mask, ALL_CONSTELLATIONS, &soln, &dops, &removed);
  CHECK((ret >= 0) == (soln.valid == 1), "valid exactly when the code is not negative");
  s8 want;
  bool out[MAXM] = {0};
  int nout = 0;
  const double T = 6.25;
  if (NORAIM || NM == m) {
    want = PVT_CONVERGED_NO_RAIM;
  } else if (below(sum, T * NM)) {
    want = PVT_CONVERGED_RAIM_OK;
  } else {
    want = PVT_RAIM_REPAIR_FAILED;
    while (nout < 2 && NM - nout - 1 > m) {
      int worst = -1;
      for (int i = 0; i < NM; i++) {
        if (out[i]) continue;
        ASSUME(worst < 0 || (q[i] == 0 && q[worst] == 0) || q[i] > q[worst] + 0.01 || q[i] < q[worst] - 0.01);
        if (worst < 0 || q[i] > q[worst]) worst = i;
      }
      out[worst] = true;
      nout++;
      sum -= q[worst];
      if (below(sum, T * (NM - nout))) {
        want = PVT_CONVERGED_RAIM_REPAIR;
        break;
      }
    }
    if (want < 0) { /* only GPS as the last resort */
      nout = 0;
      for (int i = 0; i < NM; i++) out[i] = i >= NGPS, nout += out[i];
      want = NGPS <= m ? PVT_RAIM_REPAIR_IMPOSSIBLE : below(gsum, T * NGPS) ? PVT_CONVERGED_RAIM_REPAIR : PVT_RAIM_REPAIR_FAILED;
    }
  }
  CHECK(ret == want, "the integrity check accepts, repairs or refuses the epoch as its residuals require");
  if (ret < 0) return;
  if (ret != PVT_CONVERGED_RAIM_REPAIR) nout = 0;
  CHECK(soln.n_sigs_used == NM - nout && soln.n_sats_used == NM - nout, "the counts leave out the removed signals");
  if (ret != PVT_CONVERGED_RAIM_REPAIR) {
    CHECK(sid_set_get_sig_count(&removed) == 0, "nothing is reported removed unless the epoch was repaired");
    return;
  }
  CHECK((int)sid_set_get_sig_count(&removed) == nout && nout > 0, "a repaired epoch reports what was removed");
  for (int i = 0; i < NM; i++) CHECK(sid_set_contains(&removed, nm[i].sid) == out[i], "the signals with the worst residuals are the ones removed");
}
#endif
