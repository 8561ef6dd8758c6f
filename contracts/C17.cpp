// C17: the integrator always stops, charges what it used, and never passes failure off as success.
#include "probe.h"
static void settings(Settings::METHOD_TYPE m) {
  Settings::Set_Integration_Method(m);
  Settings::Set_Integration_Eval_Limit(vc_int("limit", 1, 3000));
  Settings::Set_Integration_Search_Limit(vc_int("search-limit", 1, 3000));
  Settings::Set_Tolerance(vc_real_in("tol", 1e-9, 1));
}
#ifdef VC_NATIVE
static double wild(double x) {
  int shape = vc_int("wild", 0, 3); double t = 1 / (1 + x);
  if (shape == 0) return vc_int("sparse", 0, 40) ? vc_fn("g", x, 0, 10) : vc_fn_any("f", x);
  if (shape == 1) return sin(1 / (t - vc_real_in("pole", 0, 1)));
  if (shape == 2) { double p = vc_int("cell", 1, 15) / 16.0, q = vc_int("cell2", 1, 15) / 16.0; return t == p ? VC_INF : t == q ? -VC_INF : 1; }
  return arbitrary(x);
}
#else
static double wild(double x) { return vc_fn_any("f", x); }
#endif
// after the search: how it ends
static void outcome(Settings::METHOD_TYPE m) {
  settings(m);
  unsigned limit = Settings::Get_Integration_Eval_Limit();
  IntegrationStats before = *get_statistics();
  int calls = 0; bool undef = false;
  MAQ_RESULT r = MAQ([&](double x) {
    double v = wild(x);
    if (get_statistics()->total_search_evals != before.total_search_evals) { calls++; if (v != v) undef = true; }
    return v;
  });
  IntegrationStats after = *get_statistics();
  unsigned searched = after.total_search_evals - before.total_search_evals;
  bool nothing = after.number_search_fails != before.number_search_fails;
  vc_check("calls-after-the-search", calls <= 3 + 2 * limit);
  vc_check("charged-search", r.evaluations >= searched);
  vc_check("charged", r.evaluations <= limit + 1 || r.evaluations <= searched + 4);
  vc_check("undefined-unless-successful", r.successful != (r.integral != r.integral));
  if (undef) { vc_cover("undefined-point"); vc_check("undefined-point-fails", !r.successful); }
  if (nothing) { vc_cover("nothing-found"); vc_check("zero", r.integral == 0 && r.successful && calls == 0); return; }
  vc_check("both-ends-looked-at", calls >= 2);
  if (r.evaluations > limit) { vc_cover("ran-out"); vc_check("running-out-fails", !r.successful); }
  if (r.successful) { vc_cover("success"); vc_check("charged-all", calls == 3 + 2 * (r.evaluations - searched - 3)); }
}
VC_HARNESS(C17, binary) { outcome(Settings::BINARY_SUBDIVISION); }
VC_HARNESS(C17, reverse_binary) { outcome(Settings::REVERSE_BINARY_SUBDIVISION); }
VC_HARNESS(C17, low_first) { outcome(Settings::LOW_FIRST_REVERSE_BINARY_SUBDIVISION); }
VC_HARNESS(C17, scattered) { outcome(Settings::SCATTERED); }
VC_HARNESS(C17, directed) { outcome(Settings::DIRECTED); }
// the searches: they stop, count what they use, and an integrand that is zero wherever they look integrates to zero
static void search(Settings::METHOD_TYPE m) {
  settings(m);
  Settings::Set_Integration_Eval_Limit(1);
  unsigned limit = Settings::Get_Integration_Search_Limit();
  IntegrationStats before = *get_statistics();
  int calls = 0; bool zero = true;
  MAQ_RESULT r = MAQ([&](double x) {
    if (get_statistics()->total_search_evals != before.total_search_evals) return 0.0;
    double v = arbitrary(x);
    calls++; if (!(v == 0)) zero = false;
    return v;
  });
  unsigned searched = get_statistics()->total_search_evals - before.total_search_evals;
  vc_check("counted", searched == calls);
  vc_check("at-least-two", searched >= 2);
  vc_check("within-twice-the-limit", searched <= 2 * limit);
  if (zero) { vc_cover("zero"); vc_check("zero-integrates-to-zero", r.integral == 0 && r.successful); }
  else vc_cover("not-zero");
}
VC_HARNESS(C17, search_binary) { search(Settings::BINARY_SUBDIVISION); }
VC_HARNESS(C17, search_reverse_binary) { search(Settings::REVERSE_BINARY_SUBDIVISION); }
VC_HARNESS(C17, search_low_first) { search(Settings::LOW_FIRST_REVERSE_BINARY_SUBDIVISION); }
VC_HARNESS(C17, search_scattered) { search(Settings::SCATTERED); }
VC_HARNESS(C17, search_directed) { search(Settings::DIRECTED); }
