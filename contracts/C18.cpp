// C18: every range-search method yields a proper bracket or reports failure.
// With an evaluation limit of one the integrator looks at the ends and the middle of the first interval and stops.
#include "probe.h"
static void bracket(Settings::METHOD_TYPE m) {
  Settings::Set_Integration_Method(m);
  Settings::Set_Integration_Eval_Limit(1);
  Settings::Set_Integration_Search_Limit(vc_int("limit", 1, 3000));
  IntegrationStats before = *get_statistics();
  Record g;
  // anything at all while the search is under way; what follows the search is of no interest here
  MAQ_RESULT r = MAQ([&](double x) { return g.note(x, get_statistics()->total_search_evals == before.total_search_evals ? arbitrary(x) : 0); });
  IntegrationStats after = *get_statistics();
  if (after.number_search_fails != before.number_search_fails) {        // no range was proposed
    vc_cover("no-range");
    vc_check("nothing-missed", !g.seen);
    vc_check("reported-as-zero", r.integral == 0 && r.successful);
    return;
  }
  vc_cover("range");
  double a = g.t3, b = g.t2, c = g.t1;
  double lo = a < b ? a : b, hi = a < b ? b : a;
  if (c < lo) lo = c;
  if (c > hi) hi = c;
  double mid = a + b + c - lo - hi;
  vc_check("starts-inside", 0 <= lo);
  vc_check("ends-inside", hi <= 1);
  vc_check("not-empty", lo < hi);
  vc_check_eq("split-at-the-middle", mid, (lo + hi) / 2);
  if (g.seen) { vc_cover("seen"); vc_check("range-holds-what-was-seen", lo <= g.where && g.where <= hi); }
  vc_check("zeros-propose-nothing", !g.zero3);
}
VC_HARNESS(C18, binary) { bracket(Settings::BINARY_SUBDIVISION); }
VC_HARNESS(C18, reverse_binary) { bracket(Settings::REVERSE_BINARY_SUBDIVISION); }
VC_HARNESS(C18, low_first) { bracket(Settings::LOW_FIRST_REVERSE_BINARY_SUBDIVISION); }
VC_HARNESS(C18, scattered) { bracket(Settings::SCATTERED); }
VC_HARNESS(C18, directed) { bracket(Settings::DIRECTED); }
