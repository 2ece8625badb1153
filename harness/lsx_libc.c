/* The C string functions for the symbolic executor of the compiler IR. */
#include <stddef.h>
size_t strlen(const char *s) {
  size_t n = 0;
  while (s[n]) {
    n++;
  }
  return n;
}
int strcmp(const char *a, const char *b) {
  while (*a && *a == *b) {
    a++, b++;
  }
  return (unsigned char)*a - (unsigned char)*b;
}
char *strrchr(const char *s, int c) {
  const char *r = NULL;
  for (;; s++) {
    if (*s == (char)c) {
      r = s;
    }
    if (!*s) {
      return (char *)r;
    }
  }
}
char *strchr(const char *s, int c) {
  for (;; s++) {
    if (*s == (char)c) {
      return (char *)s;
    }
    if (!*s) {
      return NULL;
    }
  }
}
