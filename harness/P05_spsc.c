/* Rely/guarantee check of the FIFO for one producer and one consumer.
 * The real source is compiled with a preemption point before every access to the position the other
 * thread owns, and before and after every byte copied. At each point the other thread takes any number of its allowed steps:
 *   producer: fills free slots with anything, publishes any number of them;
 *   consumer: releases any number of published bytes.
 * The thread under test must deliver its own half, and keep the guarantee the other half relies on. */
#include <assert.h>
#include <string.h>
#include "vp.h"
#define read_index ri[1]
#define write_index wi[1]
#include <swiftnav/fifo_byte.h>
#undef read_index
#undef write_index
static void vp_yield(void);
static void *vp_copy(void *d, const void *s, size_t n) {
  for (size_t i = 0; i < n; i++) {
    vp_yield();
    ((uint8_t *)d)[i] = ((const uint8_t *)s)[i];
  }
  vp_yield();
  return d;
}
/* a thread's own position changes only by its own hand: preemption before accesses to the other one suffices */
#ifdef CONSUMER
#define read_index ri[0]
#define write_index wi[(vp_yield(), 0)]
#else
#define read_index ri[(vp_yield(), 0)]
#define write_index wi[0]
#endif
#define memcpy vp_copy
#define memmove vp_copy
#include "fifo_byte.c"
#undef read_index
#undef write_index
#undef memcpy
#undef memmove

static fifo_t f;
static uint8_t store[SIZE], expect[3 * SIZE + 1], io[SIZE];
static uint32_t r0, gr, gw; /* ghost positions */
static int active;
enum { MASK = SIZE - 1 };

static void vp_yield(void) {
  if (!active) {
    return;
  }
  uint8_t k = vp_u8();
#ifdef CONSUMER
  CHECK(f.wi[0] == gw, "the consumer never moves the write position");
  CHECK(f.ri[0] - gr <= gw - gr, "the consumer releases only published bytes");
  gr = f.ri[0];
  uint32_t room = SIZE - (gw - gr);
  ASSUME(k <= room);
  for (uint32_t j = 0; j < SIZE; j++) {
    if (j < room) {
      uint8_t v = vp_u8();
      store[(gw + j) & MASK] = v;
      if (j < k) {
        expect[gw - r0 + j] = v;
      }
    }
  }
  gw += k;
  f.wi[0] = gw;
#else
  CHECK(f.ri[0] == gr, "the producer never moves the read position");
  CHECK(f.wi[0] - gw <= SIZE - (gw - gr), "the producer publishes at most the free space");
  gw = f.wi[0];
  for (uint32_t j = 0; j < SIZE; j++) {
    if (j < gw - gr) {
      CHECK(store[(gr + j) & MASK] == expect[gr - r0 + j], "a published byte is in place and is never overwritten");
    }
  }
  ASSUME(k <= gw - gr);
  gr += k;
  f.ri[0] = gr;
#endif
}

void harness(void) {
  fifo_init(&f, store, SIZE);
  uint32_t n = vp_u8(), want = vp_u32();
  uint8_t op = vp_u8();
  r0 = vp_u32();
  ASSUME(n <= SIZE);
  vp_bytes(store, sizeof(store));
  vp_bytes(io, sizeof(io));
  gr = f.ri[0] = r0;
  gw = f.wi[0] = r0 + n;
  for (uint32_t j = 0; j < SIZE; j++) {
    expect[j] = store[(r0 + j) & MASK];
  }
#ifdef CONSUMER
  active = 1;
  uint32_t cnt = 0, mv = 0, least = want < n ? want : n;
  if (op == 0) {
    cnt = mv = fifo_read(&f, io, want);
  } else if (op == 1) {
    cnt = fifo_peek(&f, io, want);
  } else if (op == 2) {
    mv = fifo_remove(&f, want);
    CHECK(mv >= least, "a remove drops at least what was there");
  } else if (op == 3) {
    uint32_t len = fifo_length(&f);
    vp_yield();
    CHECK(len >= n && len <= gw - gr, "the consumer sees a lower bound of the length");
  } else {
    uint32_t sp = fifo_space(&f);
    vp_yield();
    CHECK(sp <= SIZE - n && sp >= SIZE - (gw - gr), "the consumer sees an upper bound of the space");
  }
  vp_yield();
  active = 0;
  CHECK(f.ri[0] == r0 + mv, "the consumer releases exactly what it reports");
  CHECK(f.wi[0] == gw, "the consumer never moves the write position");
  if (op <= 1) {
    CHECK(cnt >= least && cnt <= want, "a read returns at least what was there and at most what was asked");
    for (uint32_t j = 0; j < SIZE; j++) {
      CHECK(j >= cnt || io[j] == expect[j], "the consumer obtains exactly the bytes published, in order");
    }
  }
  WITNESS("read sees a byte published during the read", op == 0 && n == 0 && cnt == 2);
  WITNESS("storage refilled during the read", op == 0 && n == 2 && cnt == 2 && gw == r0 + 2 + SIZE);
#else
  if (op == 0) {
    for (uint32_t j = 0; j < SIZE; j++) {
      expect[n + j] = io[j];
    }
    active = 1;
    uint32_t cnt = fifo_write(&f, io, want);
    vp_yield();
    active = 0;
    uint32_t room = SIZE - n;
    CHECK(f.wi[0] == r0 + n + cnt, "the producer publishes exactly what it reports");
    CHECK(cnt <= want && cnt >= (want < room ? want : room), "a write takes at least what fitted and at most what was offered");
    WITNESS("write sees space released during the write", n == SIZE && cnt == SIZE);
  } else if (op == 1) {
    active = 1;
    uint32_t len = fifo_length(&f);
    vp_yield();
    CHECK(len <= n && len >= gw - gr, "the producer sees an upper bound of the length");
  } else {
    active = 1;
    uint32_t sp = fifo_space(&f);
    vp_yield();
    CHECK(sp >= SIZE - n && sp <= SIZE - (gw - gr), "the producer sees a lower bound of the space");
  }
#endif
}
