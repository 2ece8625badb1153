/* Broadcast pages with UTC and ionosphere parameters: every field is its bits times the interface document's scale. */
#include <swiftnav/almanac.h>
#include <swiftnav/ionosphere.h>
#include "vpnav.h"
#if PART == 1 /* GPS Klobuchar, subframe 4 page 18 */
void harness(void) {
  const uint32_t id = fu(0, 2, 2), sv = fu(0, 8, 6);
  const int32_t a0 = fs(0, 16, 8), a1 = fs(0, 24, 8), a2 = fs(1, 8, 8), a3 = fs(1, 16, 8), b0 = fs(1, 24, 8), b1 = fs(2, 8, 8), b2 = fs(2, 16, 8), b3 = fs(2, 24, 8);
  for (int w = 0; w < 3; w++) {
    rest(w, 24);
  }
  for (int w = 3; w < 8; w++) {
    vp_w[w] = vp_u32();
  }
  ionosphere_t i;
  memset(&i, 0x5a, sizeof i);
  const bool ok = decode_iono_parameters(vp_w, &i);
  CHECK(ok == (id == 1 && sv == 56), "accepted exactly for data ID 1, page ID 56");
  if (ok) {
    CHECK_EQ(i.a0, a0 * p2(-30), 1e-15, "alpha0");
    CHECK_EQ(i.a1, a1 * p2(-27), 1e-15, "alpha1");
    CHECK_EQ(i.a2, a2 * p2(-24), 1e-15, "alpha2");
    CHECK_EQ(i.a3, a3 * p2(-24), 1e-15, "alpha3");
    CHECK_EQ(i.b0, b0 * p2(11), 1e-9, "beta0");
    CHECK_EQ(i.b1, b1 * p2(14), 1e-9, "beta1");
    CHECK_EQ(i.b2, b2 * p2(16), 1e-9, "beta2");
    CHECK_EQ(i.b3, b3 * p2(16), 1e-9, "beta3");
  } else {
    CHECK(i.a0 == 0 && i.a1 == 0 && i.a2 == 0 && i.a3 == 0 && i.b0 == 0 && i.b1 == 0 && i.b2 == 0 && i.b3 == 0, "a refused page leaves no parameters");
  }
  WITNESS("negative", ok && a1 == -128 && b3 == 127);
}
#elif PART == 2 /* BeiDou D1 subframe 1 */
void harness(void) {
  const uint32_t wn = fu(2, 13, 13);
  rest(2, 13);
  fu(4, 6, 6);
  const int32_t a0 = fs(4, 14, 8), a1 = fs(4, 22, 8);
  rest(4, 22);
  const int32_t a2 = fs(5, 8, 8), a3 = fs(5, 16, 8);
  const int32_t b0 = fs(5, 22, 6) * 4 + (int32_t)fu(6, 2, 2);
  rest(5, 22);
  const int32_t b1 = fs(6, 10, 8), b2 = fs(6, 18, 8);
  const int32_t b3 = fs(6, 22, 4) * 16 + (int32_t)fu(7, 4, 4);
  rest(6, 22);
  rest(7, 4);
  vp_w[0] = vp_u32();
  vp_w[1] = vp_u32();
  vp_w[3] = vp_u32();
  vp_w[8] = vp_u32();
  vp_w[9] = vp_u32();
  ionosphere_t i;
  memset(&i, 0, sizeof i);
  decode_bds_d1_iono(vp_w, &i);
  CHECK(i.toa.wn == (int32_t)wn + 1356, "week");
  CHECK_EQ(i.a0, a0 * p2(-30), 1e-15, "alpha0");
  CHECK_EQ(i.a1, a1 * p2(-27), 1e-15, "alpha1");
  CHECK_EQ(i.a2, a2 * p2(-24), 1e-15, "alpha2");
  CHECK_EQ(i.a3, a3 * p2(-24), 1e-15, "alpha3");
  CHECK_EQ(i.b0, b0 * p2(11), 1e-9, "beta0");
  CHECK_EQ(i.b1, b1 * p2(14), 1e-9, "beta1");
  CHECK_EQ(i.b2, b2 * p2(16), 1e-9, "beta2");
  CHECK_EQ(i.b3, b3 * p2(16), 1e-9, "beta3");
  WITNESS("negative", b3 == -1 && a0 == -1);
}
#elif PART == 3 /* GPS UTC, subframe 4 page 18 */
void harness(void) {
  const uint32_t id = fu(0, 2, 2), sv = fu(0, 8, 6);
  rest(0, 8);
  vp_w[1] = vp_u32();
  vp_w[2] = vp_u32();
  const int32_t a1 = fsp(3, 24, 24);
  rest(3, 24);
  const int32_t a0h = fsp(4, 24, 24);
  rest(4, 24);
  const uint32_t a0l = fu(5, 8, 8), tot = fu(5, 16, 8);
#ifdef REF
  const uint32_t ref = REF, wnt = WNT, wnlsf = WNLSF;
  put(5, 24, 8, wnt);
  put(6, 16, 8, wnlsf);
#else
  const uint32_t ref = vp_range(1, 8000), wnt = fu(5, 24, 8), wnlsf = fu(6, 16, 8);
  ASSUME(a1 == 0); /* the drift term: other queries */
#endif
  rest(5, 24);
  const int32_t dtls = fsp(6, 8, 8);
  const uint32_t dn = fu(6, 24, 8);
  rest(6, 24);
  const int32_t dtlsf = fs(7, 8, 8);
  rest(7, 8);
  const double a0 = ((double)a0h * 256 + a0l) * p2(-30);
  utc_params_t u;
  memset(&u, 0x5a, sizeof u);
  const bool page = id == 1 && sv == 56;
  const bool ok = decode_utc_parameters_with_wn_ref(vp_w, &u, (uint16_t)ref);
  CHECK(ok == (page && dn >= 1 && dn <= 7), "accepted exactly for data ID 1, page ID 56 and a day 1 to 7");
  if (ok) {
    CHECK_EQ(u.a0, a0, 1e-12, "A0");
    CHECK_EQ(u.a1, a1 * p2(-50), 1e-20, "A1");
    CHECK(u.a2 == 0, "no A2 in LNAV");
    CHECK(u.dt_ls == dtls, "current leap seconds");
    CHECK(u.dt_lsf == dtlsf, "future leap seconds");
    CHECK_EQ(u.tot.tow, tot * 4096.0, 1e-9, "reference time");
    CHECK((int32_t)u.tot.wn >= (wnt < ref ? (int32_t)ref : (int32_t)wnt) && (int32_t)u.tot.wn < (int32_t)(wnt > ref ? wnt + 1 : ref + 256) && u.tot.wn % 256 == (int32_t)wnt, "reference week is the first one not before the reference");
    const int32_t wl = wnlsf >= ref ? (int32_t)wnlsf : (int32_t)(wnlsf + 256 * ((ref + 255 - wnlsf) / 256));
    /* the instant of the announced event: end of day dn, plus the count and the polynomial */
    const double mid = wl * WD + dn * 86400.0;
    const double at = u.t_lse.wn * WD + u.t_lse.tow;
    CHECK(u.t_lse.tow >= 0 && u.t_lse.tow < WD, "the event time is normalised");
    CHECK_EQ(at, mid + dtls + a0 + a1 * p2(-50) * (mid - (u.tot.wn * WD + tot * 4096.0)), 1e-4, "the event is at the end of the announced day, GPS time");
  } else if (!page) {
    CHECK(u.t_lse.wn == 0 && u.a0 == 0 && u.a1 == 0 && u.dt_ls == 0 && u.dt_lsf == 0, "another page leaves no parameters");
  }
  WITNESS("end of week", ok && dn == 7 && dtls == 18);
}
#elif PART == 4 /* almanac week, subframe 5 page 25 */
void harness(void) {
  const uint32_t id = fu(0, 2, 2), sv = fu(0, 8, 6), toa = fu(0, 16, 8), wn = fu(0, 24, 8);
  rest(0, 24);
  for (int w = 1; w < 8; w++) {
    vp_w[w] = vp_u32();
  }
  const uint32_t ref = vp_range(0, 30000);
  almanac_ref_week_t r;
  memset(&r, 0x5a, sizeof r);
  const bool ok = almanac_decode_week_with_wn_ref(vp_w, &r, (uint16_t)ref);
  CHECK(ok == (id == 1 && sv == 51), "accepted exactly for data ID 1, page ID 51");
  if (ok) {
    CHECK(r.toa == (int32_t)toa * 4096, "almanac reference time");
    CHECK((uint32_t)r.wna % 256 == wn && (uint32_t)r.wna >= ref && ((uint32_t)r.wna < ref + 256 || (uint32_t)r.wna == wn), "the first such week not before the reference");
  } else {
    CHECK(r.toa == 0 && r.wna == 0, "another page leaves nothing");
  }
  WITNESS("later", ok && r.wna == 2300);
}
#endif
