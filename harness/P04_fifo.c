/* One FIFO operation from any state allowed by the invariant (write - read <= size), against a queue. */
#include <swiftnav/fifo_byte.h>
#include "vp.h"
#ifndef NB
#define NB 8
#endif
void harness(void) {
  static uint8_t store[NB], io[NB], old[NB], was[NB];
  fifo_t f;
  vp_bytes(store, sizeof(store));
  vp_bytes(io, sizeof(io));
  const uint32_t size = SIZE;
  /* the storage ends where its array ends */
  uint8_t *st = store + (NB - size);
  fifo_init(&f, st, size);
  CHECK(fifo_length(&f) == 0 && fifo_space(&f) == size, "a fresh FIFO is empty with its whole storage free");
  CHECK(f.buffer == st && f.buffer_size == size, "initialisation keeps the storage");
  uint32_t r = vp_u32(), n = vp_u32(), want = vp_u32(), at = vp_u32();
  uint8_t op = vp_u8();
  ASSUME(n <= size);
  f.read_index = r;
  f.write_index = r + n;
  memcpy(old, store, sizeof(old));
  memcpy(was, io, sizeof(was));
  const uint8_t *o = old + (NB - size);
  CHECK(fifo_length(&f) == n && fifo_space(&f) == size - n, "length and free space follow the positions");
  uint32_t cnt;
  const uint32_t mask = size ? size - 1 : 0;
  switch (op) {
    case 0:
      cnt = fifo_write(&f, io, want);
      CHECK(cnt == (want < size - n ? want : size - n), "a write accepts the longest prefix that fits");
      CHECK(f.read_index == r && f.write_index == r + n + cnt, "a write advances only the write position");
      /* queue content after: old content then the written bytes */
      if (at < n + cnt) {
        CHECK(st[(r + at) & mask] == (at < n ? o[(r + at) & mask] : was[at - n]), "content after a write");
      }
      break;
    case 1:
      cnt = fifo_read(&f, io, want);
      CHECK(cnt == (want < n ? want : n), "a read returns what is there");
      CHECK(f.read_index == r + cnt && f.write_index == r + n, "a read advances only the read position");
      if (at < NB) {
        CHECK(io[at] == (at < cnt ? o[(r + at) & mask] : was[at]), "a read returns the oldest bytes in order");
      }
      break;
    case 2:
      cnt = fifo_peek(&f, io, want);
      CHECK(cnt == (want < n ? want : n), "a peek returns what is there");
      CHECK(f.read_index == r && f.write_index == r + n, "a peek moves nothing");
      if (at < NB) {
        CHECK(io[at] == (at < cnt ? o[(r + at) & mask] : was[at]), "a peek returns the oldest bytes in order");
      }
      break;
    case 3:
      cnt = fifo_remove(&f, want);
      CHECK(cnt == (want < n ? want : n), "a remove drops what is there");
      CHECK(f.read_index == r + cnt && f.write_index == r + n, "a remove advances only the read position");
      break;
    default:
      ASSUME(0);
  }
  CHECK(fifo_length(&f) + fifo_space(&f) == size, "length plus free space is the storage size");
  CHECK(f.buffer == st && f.buffer_size == size, "operations keep the storage");
  if (op != 0) {
    for (unsigned i = 0; i < NB; i++) {
      CHECK(store[i] == old[i], "reading leaves the storage unchanged");
    }
  }
#if SIZE >= 4
  WITNESS("wrapping write over the position overflow", op == 0 && r == 0xfffffffeu && n == 1 && want == 3);
  WITNESS("wrapping read", op == 1 && r % SIZE == SIZE - 1 && n == 3 && want == 100 && at == 1);
#else
  WITNESS("peek", op == 2 && n == SIZE);
#endif
}
