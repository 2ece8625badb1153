/* Replaces src/logging.c in solver runs: no handler installed, so log calls have no effect. */
#include <swiftnav/logging.h>
pfn_log log_ = NULL;
pfn_detailed_log detailed_log_ = NULL;
void logging_set_implementation(pfn_log l, pfn_detailed_log d) {
  (void)l;
  (void)d;
}
