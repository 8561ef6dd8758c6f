// C13: annual loss of a component group and the rate of exceeding a loss.
#include "groups.h"
VC_HARNESS(C13, annual) {
  vc_note("smooth");
  G g = std::make_shared<Group>(COUNT);
  vc_cover("start");
  vc_check_int("annual", g->cg->E_annual_cost(), integral_or(0, [=](double x) -> double { return g->cg->E_cost_IM(x) * g->slope_at(x); }));
}
VC_HARNESS(C13, exceedance) {
  vc_note("smooth");
  G g = std::make_shared<Group>(COUNT);
  double c = vc_real_in("c", 0, 1e6);
  vc_cover("start");
  vc_check_int("rate", g->cg->lambda_cost(c), integral_or(0, [=](double x) -> double {
    double m = g->cg->E_cost_IM(x), s = g->cg->SD_ln_cost_IM(x);
    return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(m, s).p_at_least(c) * g->slope_at(x); }));
}
VC_HARNESS(C13, empty) {
  G g = std::make_shared<Group>(vc_int("count", -5, 0));
  vc_cover("start");
  vc_check_eq("annual", g->cg->E_annual_cost(), 0);
  vc_check_eq("rate", g->cg->lambda_cost(vc_real_in("c", 0, 1e6)), 0);
}
