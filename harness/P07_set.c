/* Sets as sorted arrays: every content up to the sizes given. */
#include <swiftnav/set.h>
#include "vp.h"
typedef struct { int32_t key; uint8_t tag; } el_t;
typedef struct { uint16_t pad; int32_t key; uint32_t tag; } em_t;
static int cmp_el(const void *a, const void *b) {
  const el_t *x = a, *y = b;
  return (x->key > y->key) - (x->key < y->key);
}
static int cmp_mix(const void *a, const void *b) {
  const el_t *x = a;
  const em_t *y = b;
  return (x->key > y->key) - (x->key < y->key);
}
static el_t as[N], out[N + 1], was[N + 1];
static em_t bs[N], bout[N];
static unsigned calls;
static el_t seen_a[N];
static em_t seen_b[N];
static int ctx;
#if defined(MAP)
static void visit(void *c, u32 n, const void *a, const void *b) {
  CHECK(c == &ctx, "the callback gets the caller's context");
  CHECK(n == calls, "the callback gets the running count");
  CHECK(calls < N, "no more calls than elements");
  seen_a[calls] = *(const el_t *)a;
  seen_b[calls] = *(const em_t *)b;
  calls++;
}
#endif
static void sorted(el_t *a, unsigned n) {
  for (unsigned i = 0; i < N; i++) {
    a[i].key = vp_s32();
    a[i].tag = vp_u8();
    ASSUME(i == 0 || i >= n || a[i - 1].key < a[i].key);
  }
}

void harness(void) {
  uint32_t na = vp_u8();
  ASSUME(na <= N);
#if defined(ISSET)
  el_t arr[N];
  bool want = true;
  for (unsigned i = 0; i < N; i++) {
    arr[i].key = vp_s32();
    if (i > 0 && i < na && arr[i].key <= arr[i - 1].key) {
      want = false;
    }
  }
  CHECK(is_set((u8)na, sizeof(el_t), arr + (N - N), cmp_el) == want, "is_set is strict ascending order");
  int32_t x = vp_s32(), y = vp_s32();
  CHECK(cmp_s32_s32(&x, &y) == (x < y ? -1 : x > y), "integer comparison");
  WITNESS("equal neighbours", na == N && !want && arr[1].key == arr[2].key);
#elif defined(SIDSET)
  gnss_signal_t s[3];
  bool ok = true;
  for (unsigned i = 0; i < 3; i++) {
    s[i].sat = vp_u16();
    s[i].code = (code_t)vp_range(0, CODE_COUNT - 1);
    if (i > 0) {
      constellation_t p = sid_to_constellation(s[i - 1]), q = sid_to_constellation(s[i]);
      bool less = p != q ? p < q : s[i - 1].code != s[i].code ? s[i - 1].code < s[i].code : s[i - 1].sat < s[i].sat;
      ok = ok && less;
    }
  }
  CHECK(is_sid_set(3, s) == ok, "is_sid_set is strict signal order");
  WITNESS("signals", ok);
#elif defined(EDIT)
  /* insertion index, insertion, removal; arrays end where their objects end */
  el_t *a = as + (N - na), b;
  sorted(as, N);
  b.key = vp_s32();
  b.tag = vp_u8();
  u32 want = 0;
  for (unsigned i = 0; i < N; i++) {
    if (i < na && a[i].key < b.key) {
      want++;
    }
  }
  CHECK(insertion_index(na, sizeof(el_t), a, &b, cmp_el) == want, "insertion index counts the smaller elements");
#if EDIT == 1
  el_t *o = out + (N + 1 - (na + 1));
  u32 idx = insert_element(na, sizeof(el_t), a, o, &b, cmp_el);
  CHECK(idx == want, "insertion reports the index");
  for (unsigned i = 0; i < N + 1; i++) {
    if (i <= na) {
      const el_t *e = i < want ? &a[i] : i == want ? &b : &a[i - 1];
      CHECK(o[i].key == e->key && o[i].tag == e->tag, "insertion shifts the larger elements up");
    }
  }
  WITNESS("append", na == N && want == N);
  WITNESS("middle", na == N && want == 1);
#else
  ASSUME(na >= 1);
  el_t *o = out + (N + 1 - (na - 1));
  memcpy(was, out, sizeof(was));
  u32 idx = remove_element(na, sizeof(el_t), a, o, &b, cmp_el);
  u32 gone = want == na ? na - 1 : want;
  CHECK(idx == gone, "removal reports the index of the first element not below, or of the last");
  for (unsigned i = 0; i < N; i++) {
    if (i + 1 < na) {
      const el_t *e = i < gone ? &a[i] : &a[i + 1];
      CHECK(o[i].key == e->key && o[i].tag == e->tag, "removal shifts the larger elements down");
    }
  }
  WITNESS("above all", na == N && want == N);
  WITNESS("middle", na == N && want == 1 && a[1].key == b.key);
#endif
#else
  uint32_t nb = vp_u8();
  ASSUME(nb <= N);
  el_t *a = as + (N - na);
  em_t *b = bs + (N - nb);
  sorted(as, N);
  for (unsigned i = 0; i < N; i++) {
    bs[i].key = vp_s32();
    bs[i].tag = vp_u32();
    bs[i].pad = 0;
    ASSUME(i == 0 || bs[i - 1].key < bs[i].key);
  }
  /* reference: pairs in order */
  unsigned ia[N], ib[N], n = 0;
  for (unsigned i = 0; i < N; i++) {
    for (unsigned j = 0; j < N; j++) {
      if (i < na && j < nb && a[i].key == b[j].key) {
        ia[n] = i;
        ib[n] = j;
        n++;
      }
    }
  }
#if defined(MAP)
  s32 r = intersection_map(na, sizeof(el_t), a, nb, sizeof(em_t), b, cmp_mix, &ctx, visit);
  CHECK(r == (s32)n && calls == n, "one callback per common element");
  for (unsigned k = 0; k < N; k++) {
    if (k < n) {
      CHECK(seen_a[k].key == a[ia[k]].key && seen_a[k].tag == a[ia[k]].tag, "callback gets the pair from the first set");
      CHECK(seen_b[k].key == b[ib[k]].key && seen_b[k].tag == b[ib[k]].tag, "callback gets the pair from the second set");
    }
  }
  WITNESS("two common", n == 2 && na == N && nb == N && ib[0] == 0 && ia[0] == 1);
#else
  uint8_t which = vp_u8() & 3;
  el_t *ao = which & 1 ? out : NULL;
  em_t *bo = which & 2 ? bout : NULL;
  s32 r = intersection(na, sizeof(el_t), a, ao, nb, sizeof(em_t), b, bo, cmp_mix);
  CHECK(r == (s32)n, "intersection reports its size");
  for (unsigned k = 0; k < N; k++) {
    if (k < n && ao) {
      CHECK(out[k].key == a[ia[k]].key && out[k].tag == a[ia[k]].tag, "output of the first set");
    }
    if (k < n && bo) {
      CHECK(bout[k].key == b[ib[k]].key && bout[k].tag == b[ib[k]].tag, "output of the second set");
    }
    CHECK((ao && k < n) || (out[k].key == 0 && out[k].tag == 0), "nothing written past the first output");
    CHECK((bo && k < n) || (bout[k].key == 0 && bout[k].tag == 0), "nothing written past the second output");
  }
  WITNESS("second output only", which == 2 && n == 1);
  WITNESS("both", which == 3 && n == 2);
#endif
#endif
}
