/* Status report callbacks: any history of registration over three nodes, against a list. */
#include <swiftnav/subsystem_status_report.h>
#include "vp.h"
enum { NN = 3 };
static swiftnav_subsystem_status_report_callback_node_t node[NN];
static int log_cb[8], log_n;
static void *log_ctx[8];
static uint16_t log_c;
static uint8_t log_g, log_s;
static int ctxs[4];
static void note(int which, uint16_t c, uint8_t g, uint8_t s, void *ctx) {
  CHECK(log_n < NN, "each registered callback is called once");
  log_cb[log_n] = which;
  log_ctx[log_n] = ctx;
  log_n++;
  log_c = c;
  log_g = g;
  log_s = s;
}
static void cb0(uint16_t c, uint8_t g, uint8_t s, void *ctx) { note(0, c, g, s, ctx); }
static void cb1(uint16_t c, uint8_t g, uint8_t s, void *ctx) { note(1, c, g, s, ctx); }
static pfn_subsystem_status_report cbs[3] = {cb0, cb1, NULL};
void harness(void) {
  int order[NN], cb_of[NN], n = 0;
  int *ctx_of[NN];
  swiftnav_subsystem_status_report_callback_reset();
  for (int i = 0; i < STEPS; i++) {
    uint8_t op = vp_u8(), k = vp_u8(), c = vp_u8(), x = vp_u8();
    ASSUME(op <= 2 && k < NN && c <= 2 && x < 4);
    if (op == 2) {
      swiftnav_subsystem_status_report_callback_reset();
      n = 0;
    } else {
      /* both remove the node first */
      int m = 0;
      for (int j = 0; j < NN; j++) {
        if (j < n && order[j] != k) {
          order[m++] = order[j];
        }
      }
      n = m;
      if (op == 0) {
        swiftnav_subsystem_status_report_callback_register(&node[k], c == 2 ? NULL : c == 1 ? cb1 : cb0, &ctxs[x]);
        if (c != 2) {
          order[n++] = k;
          cb_of[k] = c;
          ctx_of[k] = &ctxs[x];
        }
      } else {
        swiftnav_subsystem_status_report_callback_deregister(&node[k]);
      }
    }
  }
  uint16_t comp = vp_u16();
  uint8_t g = vp_u8(), s = vp_u8();
  swiftnav_send_subsystem_status_report(comp, g, s);
  CHECK(log_n == n, "a report reaches every registered callback once");
  for (int j = 0; j < NN; j++) {
    if (j < n) {
      CHECK(log_cb[j] == cb_of[order[j]] && log_ctx[j] == (void *)ctx_of[order[j]], "callbacks get their context, in order of registration");
    }
  }
  CHECK(n == 0 || (log_c == comp && log_g == g && log_s == s), "the report is passed unchanged");
  WITNESS("two registered", n == 2 && order[0] == 2);
  WITNESS("none", n == 0);
}
