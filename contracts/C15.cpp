// C15: annual and discounted cost of a structure.
#include "building.h"
static double sq(double x) { return x * x; }
struct Annual { bool ok, first; double mean, second; };
// the two moments of the annual cost: integrals over the intensity axis against the slope of the hazard curve
static Annual expected(Bd b) {
#ifdef VC_NATIVE
  SLAT::Integration::IntegrationSettings::Set_Integration_Eval_Limit(vc_bool("few") ? 60 : 150);
  SLAT::Integration::IntegrationSettings::Set_Tolerance(0.05);
#endif
  std::shared_ptr<Curve> h = b->h;
  auto s = [h](double x) { return std::fabs(slope([h](double v) { return h->at(v); }, x)); };
  SLAT::Integration::MAQ_RESULT m = SLAT::Integration::MAQ([=](double x) -> double { return b->st->TotalCost(x).get_mean_X() * s(x); });
  SLAT::Integration::MAQ_RESULT q = SLAT::Integration::MAQ([=](double x) -> double { LogNormalDist d = b->st->TotalCost(x); return (sq(d.get_mean_X()) + sq(d.get_sigma_X())) * s(x); });
  Annual a; a.first = m.successful; a.ok = m.successful && q.successful; a.mean = m.integral; a.second = q.integral; return a;
}
VC_HARNESS(C15, annual) {
  vc_note("smooth");
  Bd b = std::make_shared<Building>(1);
  Annual a = expected(b);
  vc_assume(a.ok && a.mean > 0);
  vc_cover("start");
  LogNormalDist c = b->st->AnnualCost();
  vc_check_int("mean", c.get_mean_X(), a.mean);
  vc_check_int("sd", c.get_sigma_X(), std::sqrt(std::fabs(a.second - sq(a.mean))));
}
VC_HARNESS(C15, nothing_lost) {
  vc_note("smooth");
  Bd b = std::make_shared<Building>(1);
  Annual a = expected(b);
  vc_assume(a.ok && a.mean == 0);
  vc_cover("start");
  vc_check_eq("mean", b->st->AnnualCost().get_mean_X(), 0);
}
VC_HARNESS(C15, undefined) {
  vc_note("smooth");
  Bd b = std::make_shared<Building>(1);
  Annual a = expected(b);
  vc_assume(!a.first || (!a.ok && a.mean != 0));      // a mean of zero already determines the cost
  vc_cover("start");
  LogNormalDist c = b->st->AnnualCost();
  vc_check("mean", std::isnan(c.get_mean_X()));
  vc_check("sd", std::isnan(c.get_sigma_X()));
  vc_check("lifetime", std::isnan(b->st->E_cost(vc_int("years", 0, 1000), vc_real_in("rate", 0.001, 1))));
}
VC_HARNESS(C15, no_components) {
  Bd b = std::make_shared<Building>(0);
  vc_cover("start");
  LogNormalDist c = b->st->AnnualCost();
  vc_check("mean", std::isnan(c.get_mean_X()));
  vc_check("sd", std::isnan(c.get_sigma_X()));
}
static double factor(double t, double r) { return (1 - ::exp(-r * t)) / r; }
VC_HARNESS(C15, lifetime) {
  vc_note("smooth");
  Bd b = std::make_shared<Building>(1);
  int t = vc_int("years", 0, 1000); double r = vc_real("rate");
  vc_assume(r != 0 && (r * t > -50));
  Annual a = expected(b);
  vc_assume(a.ok && a.mean > 0);
  vc_cover("start");
  vc_check_int("value", b->st->E_cost(t, r), factor(t, r) * a.mean);
}
VC_HARNESS(C15, lifetimes) {
  vc_note("smooth");
  Bd b = std::make_shared<Building>(1);
  int n = vc_int("n", 1, 1 << 20); double r = vc_real_in("rate", 0.001, 1);
  std::vector<int> ts;
  for (int i = 0; i < n; i++) ts.push_back(vc_elem_int("t", i, 0, 1000));
  Annual a = expected(b);
  vc_assume(a.ok && a.mean > 0);
  vc_cover("start");
  std::vector<double> v = b->st->E_cost(ts, r);
  vc_check("length", (int)v.size() == n);
  int i = vc_index("i", n);
  vc_check_int("value", v[i], factor(ts[i], r) * a.mean);
}
VC_HARNESS(C15, no_lifetimes) {
  Bd b = std::make_shared<Building>(1);
  vc_cover("start");
  vc_check("length", b->st->E_cost(std::vector<int>(), 0.05).size() == 0);
}
