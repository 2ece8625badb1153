/* Native side of a harness: reads the recorded input values (one hex number per line) and runs it. */
#include <inttypes.h>
#include <unistd.h>
#include "vp.h"

static uint64_t *vals;
static size_t n_vals, pos;

uint64_t vp_next(unsigned bits) {
  (void)bits;
  /* values past the end of the trace were irrelevant to it */
  return pos < n_vals ? vals[pos++] : 0;
}
void vp_fail(const char *msg, const char *file, int line) {
  printf("REPLAY-FAIL %s (%s:%d)\n", msg, file, line);
  fflush(stdout);
  _exit(3);
}
void vp_assume_failed(const char *file, int line) {
  printf("REPLAY-ASSUME %s:%d\n", file, line);
  fflush(stdout);
  _exit(4);
}
void vp_witness(const char *label) { printf("REPLAY-WITNESS %s\n", label); }

int main(int argc, char **argv) {
  if (argc < 2) {
    return 5;
  }
  FILE *f = fopen(argv[1], "r");
  if (!f) {
    return 5;
  }
  vals = malloc(sizeof(uint64_t) * 1000000);
  while (n_vals < 1000000 && fscanf(f, "%" SCNx64, &vals[n_vals]) == 1) {
    n_vals++;
  }
  fclose(f);
  harness();
  printf("REPLAY-DONE\n");
  return 0;
}
