/* Routing of log calls to the installed pair of handlers. */
#include <stdarg.h>
#if LEVEL != 6
#define LOG_LEVEL LEVEL
#endif
#include <swiftnav/logging.h>
#include "vp.h"
static int calls, who, level, line, dets;
static const char *text;
static bool named;
static bool my_name(const char *f) { return f[0] == 'P' && f[1] == '4' && f[2] == '1' && f[3] == '_' && f[7] == '.' && f[8] == 'c' && f[9] == 0; }
#define HANDLER(n)                                                                                              \
  static void log##n(int l, const char *m, ...) { calls++, who = n, level = l, text = m; }                       \
  static void det##n(int l, const char *f, const int ln, const char *m, ...) { dets++, who = n, level = l, text = m, named = my_name(f), line = ln; }
HANDLER(1)
HANDLER(2)
HANDLER(3)
#if SLICE == 0
static const char M[] = "message %d";
#define ONE(L, call, detcall)                                                                        \
  {                                                                                                 \
    calls = dets = 0, text = NULL;                                                                   \
    call(M, 1);                                                                                      \
    const int on = L <= LOG_LEVEL;                                                                   \
    CHECK(calls == on && dets == 0, "plain log calls reach the plain handler once, if enabled");     \
    CHECK(!on || (who == now && level == L && text == M), "the installed handler gets level and message"); \
    calls = dets = 0, text = NULL;                                                                   \
    const int at = __LINE__;                                                                         \
    detcall(M, 1);                                                                                   \
    CHECK(dets == on && calls == 0, "detailed log calls reach the detailed handler once, if enabled"); \
    CHECK(!on || (who == now && level == L && text == M && line == at), "the installed detailed handler gets level, line and message"); \
    CHECK(!on || named, "and the name of the file without its path"); \
  }
static bool same(const char *a, const char *b) {
  while (*a && *a == *b) {
    a++, b++;
  }
  return *a == *b;
}
#define NAME(L, t) CHECK(same(level_string[L], t), "the level's name");
void harness(void) {
  NAME(0, "EMERGENCY") NAME(1, "ALERT") NAME(2, "CRITICAL") NAME(3, "ERROR") NAME(4, "WARNING") NAME(5, "NOTICE") NAME(6, "INFO") NAME(7, "DEBUG")
  const pfn_log log0 = log_;
  const pfn_detailed_log det0 = detailed_log_;
  CHECK(log0 != NULL && det0 != NULL, "a default is installed from the start");
  int now = 0;
  for (int k = 0; k < 3; k++) {
    const int op = PICK(vp_srange(0, 3));
    if (op == 0) {
      logging_set_implementation(NULL, NULL);
    } else if (op == 1) {
      logging_set_implementation(log1, det1);
    } else if (op == 2) {
      logging_set_implementation(log2, det2);
    } else {
      logging_set_implementation(log3, det3);
    }
    now = op;
  }
  if (now == 0) {
    CHECK(log_ == log0 && detailed_log_ == det0, "installing nothing restores the default");
  } else {
    ONE(0, log_emerg, detailed_log_emerg)
    ONE(1, log_alert, detailed_log_alert)
    ONE(2, log_crit, detailed_log_crit)
    ONE(3, log_error, detailed_log_error)
    ONE(4, log_warn, detailed_log_warn)
    ONE(5, log_notice, detailed_log_notice)
    ONE(6, log_info, detailed_log_info)
    ONE(7, log_debug, detailed_log_debug)
  }
  WITNESS("third", now == 3);
}
#else /* base name of any path */
#ifndef N
#define N 6
#endif
void harness(void) {
  char p[N + 1], o[N + 1];
  int n = vp_srange(0, N);
  for (int i = 0; i < N; i++) {
    const uint8_t r = vp_u8();
    o[i] = p[i] = (char)(i < n ? (r ? r : '/') : 0);
  }
  o[N] = p[N] = 0;
  int end = n, start;
  while (end > 0 && o[end - 1] == '/') {
    end--;
  }
  for (start = end; start > 0 && o[start - 1] != '/'; start--) {
  }
  const char *r = truncate_path_(p);
  if (end == 0) {
    CHECK(n == 0 ? r[0] == 0 : r[0] == '/' && r[1] == 0, "nothing for the empty path, a slash for slashes only");
  } else {
    for (int i = start; i < end; i++) {
      CHECK(r[i - start] == o[i], "the last component");
    }
    CHECK(r[end - start] == 0, "and nothing behind it");
  }
  WITNESS("inner", n == N && start == 2 && end == N - 1);
}
#endif
