/* Equality of ephemerides, almanacs, measurements and bias sets. */
#include <swiftnav/almanac.h>
#include <swiftnav/ephemeris.h>
#include <swiftnav/glonass_phase_biases.h>
#include <swiftnav/nav_meas.h>
#include "vptime.h"
#define MAXF 40
typedef struct {
  double *d[MAXF]; /* fields compared with a tolerance */
  float *f[4];
  int nd, nf;
} fields_t;
#define D(x) l.d[l.nd++] = &(x)
#define D3(x) D((x)[0]), D((x)[1]), D((x)[2])
#define F(x) l.f[l.nf++] = &(x)
#if TYPE == 0 /* ephemeris, Keplerian */
typedef ephemeris_t rec_t;
static fields_t list(rec_t *r) {
  fields_t l;
  l.nd = l.nf = 0;
  ephemeris_kepler_t *k = &r->data.kepler;
  D(r->toe.tow), D(k->crc), D(k->crs), D(k->cuc), D(k->cus), D(k->cic), D(k->cis), D(k->dn), D(k->m0), D(k->ecc), D(k->sqrta), D(k->omega0), D(k->omegadot), D(k->w), D(k->inc),
      D(k->inc_dot), D(k->af0), D(k->af1), D(k->af2), D(k->toc.tow);
#if TGD == 1
  F(k->tgd.gps_s[0]), F(k->tgd.gps_s[1]);
#elif TGD == 2
  F(k->tgd.qzss_s[0]), F(k->tgd.qzss_s[1]);
#elif TGD == 3
  F(k->tgd.gal_s[0]), F(k->tgd.gal_s[1]);
#else
  F(k->tgd.bds_s[0]), F(k->tgd.bds_s[1]);
#endif
  return l;
}
#define NI 9
static void ints(rec_t *r, uint32_t v[NI]) {
  r->sid.sat = (uint16_t)v[0], r->sid.code = (code_t)(v[1] ? CODE : CODE2), r->valid = (uint8_t)v[2], r->health_bits = (uint8_t)v[3], r->toe.wn = (int16_t)(v[4] & 0x7fff);
  r->data.kepler.toc.wn = (int16_t)(v[5] & 0x7fff), r->data.kepler.iodc = (uint16_t)v[6], r->data.kepler.iode = (uint16_t)v[7];
  (void)v[8];
}
static const uint32_t TOP[NI] = {65535, 1, 255, 255, 32767, 32767, 65535, 65535, 0};
#define EQUAL(a, b) ephemeris_equal(&(a), &(b))
#elif TYPE == 1 || TYPE == 2 /* SBAS, GLONASS */
typedef ephemeris_t rec_t;
static fields_t list(rec_t *r) {
  fields_t l;
  l.nd = l.nf = 0;
  D(r->toe.tow);
#if TYPE == 1
  D3(r->data.xyz.pos), D3(r->data.xyz.vel), D3(r->data.xyz.acc), D(r->data.xyz.a_gf0), D(r->data.xyz.a_gf1);
#else
  D3(r->data.glo.pos), D3(r->data.glo.vel), D3(r->data.glo.acc), D(r->data.glo.gamma), D(r->data.glo.tau), D(r->data.glo.d_tau);
#endif
  return l;
}
#define NI 9
static void ints(rec_t *r, uint32_t v[NI]) {
  r->sid.sat = (uint16_t)v[0], r->sid.code = (code_t)(v[1] ? CODE : CODE2), r->valid = (uint8_t)v[2], r->health_bits = (uint8_t)v[3], r->toe.wn = (int16_t)v[4];
#if TYPE == 2
  r->data.glo.fcn = (uint16_t)v[5], r->data.glo.iod = (uint8_t)v[6];
#endif
}
#if TYPE == 2
static const uint32_t TOP[NI] = {65535, 1, 255, 255, 32767, 65535, 255, 0, 0};
#else
static const uint32_t TOP[NI] = {65535, 1, 255, 255, 32767, 0, 0, 0, 0};
#endif
#define EQUAL(a, b) ephemeris_equal(&(a), &(b))
#elif TYPE == 3 /* almanac */
typedef almanac_t rec_t;
static fields_t list(rec_t *r) {
  fields_t l;
  l.nd = l.nf = 0;
  D(r->toa.tow);
#if KIND == 0
  almanac_kepler_t *k = &r->data.kepler;
  D(k->m0), D(k->ecc), D(k->sqrta), D(k->omega0), D(k->omegadot), D(k->w), D(k->inc), D(k->af0), D(k->af1);
#elif KIND == 1
  D3(r->data.xyz.pos), D3(r->data.xyz.vel), D3(r->data.xyz.acc);
#else
  almanac_glo_t *g = &r->data.glo;
  D(g->lambda), D(g->t_lambda), D(g->i), D(g->t), D(g->t_dot), D(g->epsilon), D(g->omega);
#endif
  F(r->ura);
  return l;
}
#define NI 6
static void ints(rec_t *r, uint32_t v[NI]) {
  r->sid.sat = (uint16_t)v[0], r->sid.code = (code_t)(v[1] ? CODE : CODE2), r->valid = (uint8_t)v[2], r->health_bits = (uint8_t)v[3], r->toa.wn = (int16_t)v[4], r->fit_interval = v[5];
}
static const uint32_t TOP[NI] = {65535, 1, 255, 255, 32767, 0xffffffff};
#define EQUAL(a, b) almanac_equal(&(a), &(b))
#elif TYPE == 4 /* measurement */
typedef navigation_measurement_t rec_t;
static fields_t list(rec_t *r) {
  fields_t l;
  l.nd = l.nf = 0;
  D(r->raw_pseudorange), D(r->raw_carrier_phase), D(r->raw_measured_doppler), D(r->raw_computed_doppler), D3(r->sat_pos), D3(r->sat_vel), D3(r->sat_acc), D(r->sat_clock_err), D(r->sat_clock_err_rate),
      D(r->cn0), D(r->lock_time), D(r->elevation), D(r->tot.tow);
  r->tot.wn = 2000;
  return l;
}
#define NI 4
static void ints(rec_t *r, uint32_t v[NI]) { r->sid.sat = (uint16_t)v[0], r->sid.code = (code_t)(v[1] ? CODE : CODE2), r->flags = (uint16_t)v[2], r->eph_key = (uint16_t)v[3]; }
static const uint32_t TOP[NI] = {65535, 1, 65535, 65535};
#define EQUAL(a, b) nav_meas_equal(&(a), &(b))
#elif TYPE == 5 /* standard deviations */
typedef measurement_std_t rec_t;
static fields_t list(rec_t *r) {
  fields_t l;
  l.nd = l.nf = 0;
  D(r->iono_std), D(r->tropo_std), D(r->range_std);
  return l;
}
#define NI 3
static void ints(rec_t *r, uint32_t v[NI]) { r->sid.sat = (uint16_t)v[0], r->sid.code = (code_t)(v[1] ? CODE : CODE2), r->flags = (uint8_t)v[2]; }
static const uint32_t TOP[NI] = {65535, 1, 255};
#define EQUAL(a, b) measurement_std_equal(&(a), &(b))
#else /* bias sets */
typedef glo_biases_t rec_t;
static fields_t list(rec_t *r) {
  fields_t l;
  l.nd = l.nf = 0;
  D(r->l1of_bias_m), D(r->l1p_bias_m), D(r->l2of_bias_m), D(r->l2p_bias_m);
  return l;
}
#define NI 1
static void ints(rec_t *r, uint32_t v[NI]) { r->mask = (uint8_t)v[0]; }
static const uint32_t TOP[NI] = {255};
#define EQUAL(a, b) glonass_biases_are_equal(a, b)
#endif
void harness(void) {
  rec_t a, b;
  memset(&a, 0, sizeof a);
  memset(&b, 0, sizeof b);
  fields_t fa = list(&a), fb = list(&b);
  uint32_t va[NI], vb[NI];
#if MODE == 0 /* equal fields, or fields closer than half the tolerance */
  for (int i = 0; i < NI; i++) {
    va[i] = vb[i] = vp_range(0, TOP[i]);
  }
  va[NI > 1 ? 1 : 0] = vb[NI > 1 ? 1 : 0] = NI > 1 ? 1 : va[0];
  ints(&a, va), ints(&b, vb);
  for (int i = 0; i < fa.nd; i++) {
    *fa.d[i] = vp_dbl(-1e9, 1e9);
    double e = 0;
#ifndef EXACT
    e = vp_dbl(-5e-13, 5e-13);
#endif
    *fb.d[i] = *fa.d[i] + e;
  }
  for (int i = 0; i < fa.nf; i++) {
    *fa.f[i] = (float)vp_dbl(-1e3, 1e3);
    *fb.f[i] = *fa.f[i];
  }
  CHECK(EQUAL(a, a), "reflexive");
  CHECK(EQUAL(a, b), "equal");
  WITNESS("something", *fa.d[0] > 1);
#else /* field K differs, the others are what they may */
  for (int i = 0; i < NI; i++) {
    va[i] = vp_range(0, TOP[i]), vb[i] = vp_range(0, TOP[i]);
  }
#if NI > 1
  /* the two signal codes of this case */
  const int same = PICK(vp_srange(0, 1));
  va[1] = 1, vb[1] = same;
#endif
  for (int i = 0; i < fa.nd; i++) {
    *fa.d[i] = vp_dbl(-1e9, 1e9), *fb.d[i] = vp_dbl(-1e9, 1e9);
  }
  for (int i = 0; i < fa.nf; i++) {
    *fa.f[i] = (float)vp_dbl(-1e3, 1e3), *fb.f[i] = (float)vp_dbl(-1e3, 1e3);
  }
#if MODE == 1
  const int k = PICK(vp_srange(0, fa.nd + fa.nf + NI - 1));
  if (k < fa.nd) {
    ASSUME(*fa.d[k] - *fb.d[k] > 2e-12 || *fb.d[k] - *fa.d[k] > 2e-12);
  } else if (k < fa.nd + fa.nf) {
    ASSUME(*fa.f[k - fa.nd] - *fb.f[k - fa.nd] > 2e-12 || *fb.f[k - fa.nd] - *fa.f[k - fa.nd] > 2e-12);
  } else {
    ASSUME(va[k - fa.nd - fa.nf] != vb[k - fa.nd - fa.nf]);
  }
  ints(&a, va), ints(&b, vb);
  CHECK(!EQUAL(a, b), "different");
  CHECK(!EQUAL(b, a), "different, the other way round");
  WITNESS("first", k == 0);
#else
  ints(&a, va), ints(&b, vb);
  CHECK(EQUAL(a, b) == EQUAL(b, a), "symmetric");
  WITNESS("equal", EQUAL(a, b));
#endif
#endif
}
