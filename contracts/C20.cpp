// C20: the integration statistics account for every call.
#include "probe.h"
#include <sstream>
// any counters a history can have left behind
static IntegrationStats history() {
  IntegrationStats *s = const_cast<IntegrationStats *>(get_statistics());
  s->max_successful_integration = vc_int("max-integration", 0, 3000);
  s->number_integration_fails = vc_int("fails", 0, 3000);
  s->total_integrations_evals = vc_int("integration-evals", 0, 3000);
  s->max_successful_search = vc_int("max-search", 0, 3000);
  s->number_search_fails = vc_int("search-fails", 0, 3000);
  s->total_search_evals = vc_int("search-evals", 0, 3000);
  s->calls = vc_int("calls", 0, 3000);
  s->successes = vc_int("successes", 0, 3000);
  s->nans = vc_int("nans", 0, 3000);
  return *s;
}
static void settings(Settings::METHOD_TYPE m) {
  Settings::Set_Integration_Method(m);
  Settings::Set_Integration_Eval_Limit(vc_int("limit", 1, 3000));
  Settings::Set_Integration_Search_Limit(vc_int("search-limit", 1, 3000));
  Settings::Set_Tolerance(vc_real_in("tol", 1e-9, 1));
}
static void same(const IntegrationStats &a, const IntegrationStats &b) {
  vc_check("max-integration", a.max_successful_integration == b.max_successful_integration);
  vc_check("fails", a.number_integration_fails == b.number_integration_fails);
  vc_check("integration-evals", a.total_integrations_evals == b.total_integrations_evals);
  vc_check("max-search", a.max_successful_search == b.max_successful_search);
  vc_check("search-fails", a.number_search_fails == b.number_search_fails);
  vc_check("search-evals", a.total_search_evals == b.total_search_evals);
  vc_check("calls", a.calls == b.calls);
  vc_check("successes", a.successes == b.successes);
  vc_check("nans", a.nans == b.nans);
}
// the counters are independent of one another except where the statement links them
static void account(Settings::METHOD_TYPE m, bool searches) {
  settings(m);
  if (searches) {          // the searches themselves; what follows is looked at in the other contracts
    IntegrationStats *s = const_cast<IntegrationStats *>(get_statistics());
    Settings::Set_Integration_Eval_Limit(1);
    s->max_successful_integration = 1; s->number_integration_fails = 3; s->total_integrations_evals = 17; s->max_successful_search = 1;
    s->number_search_fails = 5; s->total_search_evals = 23; s->calls = 22; s->successes = 7; s->nans = 7;
  } else history();
  IntegrationStats before = *get_statistics();
  int probes = 0; bool undef = false;
  MAQ_RESULT r = MAQ([&](double x) {
    bool over = get_statistics()->total_search_evals != before.total_search_evals;
    if (searches && over) return 0.0;
    double v = arbitrary(x);
    if (!over) probes++;
    else if (v != v) undef = true;
    return v;
  });
  IntegrationStats after = *get_statistics();
  unsigned searched = after.total_search_evals - before.total_search_evals;
  if (searches) vc_check("search-evals", searched == probes);
  vc_check("calls", after.calls == before.calls + 1);
  if (searches) {
    unsigned outcomes = after.successes + after.number_integration_fails + after.nans + after.number_search_fails;
    vc_check("one-outcome", outcomes == before.successes + before.number_integration_fails + before.nans + before.number_search_fails + 1);
    vc_cover("searched");
    return;
  }
  bool ok = after.successes != before.successes, failed = after.number_integration_fails != before.number_integration_fails;
  bool nan = after.nans != before.nans, nothing = after.number_search_fails != before.number_search_fails;
  vc_check("one-outcome", (ok ? 1 : 0) + (failed ? 1 : 0) + (nan ? 1 : 0) + (nothing ? 1 : 0) == 1);
  vc_check("successes", after.successes == before.successes + (ok ? 1 : 0));
  vc_check("fails", after.number_integration_fails == before.number_integration_fails + (failed ? 1 : 0));
  vc_check("nans", after.nans == before.nans + (nan ? 1 : 0));
  vc_check("search-fails", after.number_search_fails == before.number_search_fails + (nothing ? 1 : 0));
  vc_check("outcome", r.successful == (ok || nothing));
  vc_check("undefined", nan || !undef);
  vc_check("integration-evals", after.total_integrations_evals == before.total_integrations_evals + (nothing ? 0 : r.evaluations));
  vc_check("failed-search-evals", !nothing || r.evaluations == searched);
  vc_check("max-search-kept", after.max_successful_search >= before.max_successful_search);
  vc_check("max-search", after.max_successful_search >= searched);
  vc_check("max-search-reached", after.max_successful_search == before.max_successful_search || after.max_successful_search == searched);
  vc_check("max-integration-kept", after.max_successful_integration >= before.max_successful_integration);
  vc_check("max-integration", !ok || after.max_successful_integration >= r.evaluations);
  vc_check("max-integration-reached", after.max_successful_integration == before.max_successful_integration || after.max_successful_integration == r.evaluations);
  if (ok) vc_cover("success");
  if (failed) vc_cover("failure");
  if (nan) vc_cover("undefined");
  if (nothing) vc_cover("failed-search");
}
VC_HARNESS(C20, binary) { account(Settings::BINARY_SUBDIVISION, false); }
VC_HARNESS(C20, reverse_binary) { account(Settings::REVERSE_BINARY_SUBDIVISION, false); }
VC_HARNESS(C20, low_first) { account(Settings::LOW_FIRST_REVERSE_BINARY_SUBDIVISION, false); }
VC_HARNESS(C20, scattered) { account(Settings::SCATTERED, false); }
VC_HARNESS(C20, directed) { account(Settings::DIRECTED, false); }
VC_HARNESS(C20, search_binary) { account(Settings::BINARY_SUBDIVISION, true); }
VC_HARNESS(C20, search_reverse_binary) { account(Settings::REVERSE_BINARY_SUBDIVISION, true); }
VC_HARNESS(C20, search_low_first) { account(Settings::LOW_FIRST_REVERSE_BINARY_SUBDIVISION, true); }
VC_HARNESS(C20, search_scattered) { account(Settings::SCATTERED, true); }
VC_HARNESS(C20, search_directed) { account(Settings::DIRECTED, true); }
VC_HARNESS(C20, reset) {
  settings((Settings::METHOD_TYPE)vc_int("method", 0, 4));
  history(); vc_cover("start");
  SLAT::Integration::reset_statistics();
  same(*get_statistics(), IntegrationStats());
}
VC_HARNESS(C20, reading) {
  settings((Settings::METHOD_TYPE)vc_int("method", 0, 4));
  IntegrationStats before = history(); vc_cover("start");
  same(*get_statistics(), before);
  std::ostringstream o; SLAT::Integration::format_statistics(o);
  same(*get_statistics(), before);
  const IntegrationStats *s = get_statistics();
  vc_check("method", s->method == Settings::Get_Integration_Method());
  vc_check("tolerance", s->tolerance == Settings::Get_Tolerance());
  vc_check("eval-limit", s->eval_limit == Settings::Get_Integration_Eval_Limit());
  vc_check("search-limit", s->search_limit == Settings::Get_Integration_Search_Limit());
}
VC_HARNESS(C20, initially) { vc_cover("start"); same(*get_statistics(), IntegrationStats()); }
