/* Byte-wise definitions of the block operations, so that symbolic lengths are checked byte by byte. */
#ifdef VP_CPROVER
#include <stddef.h>
void *memcpy(void *d, const void *s, size_t n) {
  for (size_t i = 0; i < n; i++) {
    ((unsigned char *)d)[i] = ((const unsigned char *)s)[i];
  }
  return d;
}
void *memset(void *d, int c, size_t n) {
  for (size_t i = 0; i < n; i++) {
    ((unsigned char *)d)[i] = (unsigned char)c;
  }
  return d;
}
#endif
