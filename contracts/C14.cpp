// C14: structure costs by total probability.
#include "building.h"
static double sq(double x) { return x * x; }
static double X() { return vc_real_in("x", 0, 100); }
static void repair_only(int n, int zero = -1) {
  vc_note("smooth");
  vc_note("bounded: structures of at most three component groups");
  Bd b = std::make_shared<Building>(n);
  double x = X();
  for (int i = 0; i < n; i++) vc_assume(i == zero ? b->gs[i]->E_cost_IM(x) == 0 : b->gs[i]->E_cost_IM(x) > 0);
  vc_cover("start");
  LogNormalDist c = b->st->Cost(x, false);
  vc_check_int("mean", c.get_mean_X(), sum_mean(b, x));
  vc_check_int("sd", c.get_sigma_X(), std::sqrt(sum_var(b, x)));
  vc_check("groups", (int)b->st->Components().size() == n);
  for (int i = 0; i < n; i++) vc_check("group", b->st->Components()[i] == b->gs[i]);
}
VC_HARNESS(C14, repair0) { repair_only(0); }
VC_HARNESS(C14, repair_zero) { repair_only(2, vc_bool("first") ? 0 : 1); }
VC_HARNESS(C14, repair1) { repair_only(1); }
VC_HARNESS(C14, repair2) { repair_only(2); }
VC_HARNESS(C14, repair3) { repair_only(3); }
// from here on one group of arbitrary cost: everything below depends on the groups through their sum only
static Bd one(bool c = true, bool d = true) { vc_note("smooth"); return std::make_shared<Building>(1, c, d); }
struct Mom { double m, q; };
static Mom repair(Bd b, double x) { vc_assume(b->gs[0]->E_cost_IM(x) > 0); LogNormalDist d = b->gs[0]->CostDist_IM(x); Mom r; r.m = d.get_mean_X(); r.q = sq(r.m) + sq(d.get_sigma_X()); return r; }
VC_HARNESS(C14, collapse_considered) {
  Bd b = one(true, true);
  double x = X();
  Mom r = repair(b, x); double p = b->pc(x);
  vc_cover("start");
  LogNormalDist c = b->st->Cost(x, true);
  double m = (1 - p) * r.m + p * b->rebuild_mean(), q = (1 - p) * r.q + p * b->rebuild_sq();
  vc_check_int("mean", c.get_mean_X(), m);
  vc_check_int("sd", c.get_sigma_X(), std::sqrt(std::fabs(q - m * m)));
}
static void total(Bd b, double x) {
  Mom r = repair(b, x);
  double p = b->pc(x), d = b->pd(x), m = r.m * b->pr(x), q = r.q * b->pr(x);
  if (d > 0) { m += d * b->demolish_mean(); q += d * b->demolish_sq(); }
  if (p > 0) { m += p * b->rebuild_mean(); q += p * b->rebuild_sq(); }
  vc_assume(m > 0 && q - m * m >= 0);
  vc_cover("start");
  LogNormalDist c = b->st->TotalCost(x);
  vc_check_int("mean", c.get_mean_X(), m);
  vc_check_int("sd", c.get_sigma_X(), std::sqrt(q - m * m));
}
VC_HARNESS(C14, total) { bool c = vc_bool("collapse"), d = vc_bool("demolition"); total(one(c, d), X()); }
// a fate that cannot happen contributes nothing, even when its cost is not defined
VC_HARNESS(C14, unused_fates) {
  Bd b = one(false, false);
  b->st->setRebuildCost(LogNormalDist()); b->st->setDemolitionCost(LogNormalDist());
  double x = X();
  Mom r = repair(b, x);
  vc_assume(b->pc(x) == 0 && b->pd(x) == 0 && b->pr(x) == 1);
  vc_cover("start");
  LogNormalDist c = b->st->TotalCost(x);
  vc_check_int("mean", c.get_mean_X(), r.m);
  vc_check_int("sd", c.get_sigma_X(), std::sqrt(r.q - sq(r.m)));
}
// costs by fate: each fate's cost scaled by its probability, its logarithmic SD kept
static void scaled(const char *a, const char *s, LogNormalDist d, double p, double m, double sl) {
  vc_check_int(a, d.get_mean_X(), p * m);
  vc_check_int(s, d.get_sigma_lnX(), sl);
}
VC_HARNESS(C14, by_fate) {
  Bd b = one();
  double x = X();
  vc_assume(b->gs[0]->E_cost_IM(x) > 0);
  double m = b->gs[0]->CostDist_IM(x).get_mean_X(), s = b->gs[0]->CostDist_IM(x).get_sigma_lnX();
  vc_assume(b->pr(x) > 0 && b->pd(x) > 0 && b->pc(x) > 0);
  vc_cover("start");
  Structure::COSTS c = b->st->CostsByFate(x);
  scaled("repair", "repair-sd", c.repair, b->pr(x), m, s);
  scaled("demolition", "demolition-sd", c.demolition, b->pd(x), b->demolish_mean(), b->sx);
  scaled("collapse", "collapse-sd", c.collapse, b->pc(x), b->rebuild_mean(), b->sr);
}
VC_HARNESS(C14, by_collapse) {
  Bd b = one();
  double x = X();
  vc_assume(b->gs[0]->E_cost_IM(x) > 0);
  double m = b->gs[0]->CostDist_IM(x).get_mean_X(), s = b->gs[0]->CostDist_IM(x).get_sigma_lnX();
  vc_assume(b->pc(x) > 0 && b->pc(x) < 1);
  vc_cover("start");
  std::pair<LogNormalDist, LogNormalDist> c = b->st->DeaggregatedCost(x);
  scaled("repair", "repair-sd", c.first, 1 - b->pc(x), m, s);
  scaled("collapse", "collapse-sd", c.second, b->pc(x), b->rebuild_mean(), b->sr);
}
VC_HARNESS(C14, density) {
  Bd b = one();
  double x = X();
  vc_cover("start");
  std::shared_ptr<Curve> h = b->h;
  repair(b, x);
  vc_check_int("density", b->st->pdf(x), b->st->TotalCost(x).get_mean_X() * std::fabs(slope([h](double v) { return h->at(v); }, x)));
}
// all groups of a structure share one intensity measure
VC_HARNESS(C14, one_intensity_measure) {
  Bd b = one();
  auto other = std::make_shared<IM>(std::make_shared<Curve>("h2", 0, 10));
  bool thrown = false;
  vc_cover("start");
  try { b->st->AddCompGroup(GROUP(other, "o")); } catch (std::exception &e) { thrown = true; }
  vc_check("rejected", thrown);
  vc_check("unchanged", b->st->Components().size() == 1);
}
