/* Safe copy, bounded length, path truncation. */
#include <swiftnav/logging.h>
#include <swiftnav/memcpy_s.h>
#include <swiftnav/swift_strnlen.h>
#include "vp.h"
const char *truncate_path_(char *path);
void harness(void) {
#if defined(COPY)
  static uint8_t buf[N], old[N];
  vp_bytes(buf, sizeof(buf));
  memcpy(old, buf, sizeof(old));
  /* both ranges in one object, so every overlap is reachable; sizes are any */
  uint8_t d = vp_u8(), s = vp_u8(), flags = vp_u8();
  size_t ds = vp_u64(), c = vp_u64();
  ASSUME(d < N && s < N);
  ASSUME(ds <= (size_t)(N - d));         /* the destination is as large as stated */
  ASSUME(c > ds || c <= (size_t)(N - s)); /* a source that could be copied exists */
  ASSUME(d != s);
  uint8_t *dp = flags & 1 ? NULL : buf + d;
  const uint8_t *sp = flags & 2 ? NULL : buf + s;
  int r = memcpy_s(dp, ds, sp, c);
  int want = !dp ? MEMCPY_S_DEST_NULL : !sp ? MEMCPY_S_SRC_NULL : ds == 0 ? MEMCPY_S_DEST_SIZE_ZERO : c == 0 ? MEMCPY_S_SRC_SIZE_ZERO : ds < c ? MEMCPY_S_OVERSIZED :
      ((s > d && s < d + ds) || (d > s && d < s + c)) ? MEMCPY_S_OVERLAP : MEMCPY_S_OK;
  CHECK(r == want, "the refusal reported is the first that applies");
  for (unsigned i = 0; i < N; i++) {
    uint8_t w = r == MEMCPY_S_OK && i >= d && i - d < c ? old[s + (i - d)] : old[i];
    CHECK(buf[i] == w, "exactly the requested bytes are copied, and none on refusal");
  }
  WITNESS("touching ranges copied", r == MEMCPY_S_OK && s + c == d && c == 3);
  WITNESS("oversized", r == MEMCPY_S_OVERSIZED && c == ~(size_t)0);
#elif defined(LEN)
  char str[N];
  vp_bytes(str, sizeof(str));
  size_t max = vp_u64(), want = 0;
  /* a string shorter than the limit is terminated inside its object */
  bool term = false;
  for (unsigned i = 0; i < N; i++) {
    if (!term && i < max && str[i] != 0) {
      want++;
    }
    term = term || str[i] == 0;
  }
  ASSUME(max <= N || term);
  CHECK(swift_strnlen(str, max) == want, "length up to the terminator or the limit");
  WITNESS("limit", want == N);
  WITNESS("huge limit", max == ~(size_t)0 && want == 2);
#else
  char p[N], q[N];
  vp_bytes(p, sizeof(p));
  p[N - 1] = 0;
  unsigned len = 0;
  memcpy(q, p, sizeof(q));
  while (len < N && q[len] != 0) {
    len++;
  }
  const char *r = truncate_path_(p);
  /* reference: last component between slashes, trailing slashes dropped */
  int e = (int)len - 1;
  while (e >= 0 && q[e] == '/') {
    e--;
  }
  if (len == 0) {
    CHECK(r[0] == 0, "empty path stays empty");
  } else if (e < 0) {
    CHECK(r[0] == '/' && r[1] == 0, "only slashes give the root");
  } else {
    int b = e;
    while (b > 0 && q[b - 1] != '/') {
      b--;
    }
    for (int i = 0; i < N; i++) {
      if (i <= e - b) {
        CHECK(r[i] == q[b + i], "last component is kept");
      }
    }
    CHECK(r[e - b + 1] == 0, "last component is terminated");
  }
  WITNESS("trailing", q[0] == '/' && q[1] == 'a' && q[2] == '/' && q[3] == '/' && q[4] == 0);
#endif
}
