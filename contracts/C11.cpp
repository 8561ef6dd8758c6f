// C11: loss of a component group given demand and given intensity.
#include "groups.h"
static double sq(double x) { return x * x; }
VC_HARNESS(C11, cost_given_demand) {
  G g = std::make_shared<Group>(COUNT);
  double y = vc_real_in("y", 0, 100);
  vc_assume(y > 0);
  vc_cover("start");
  LogNormalDist c = g->cost_at(y);
  vc_check_eq("mean-cost", g->cg->E_cost_EDP(y), c.get_mean_X());
  vc_check_eq("mean-ln-cost", g->cg->mean_ln_cost_EDP(y), c.get_mu_lnX());
  vc_check_eq("sd-ln-cost", g->cg->SD_ln_cost_EDP(y), c.get_sigma_lnX());
  vc_check_eq("sd-cost", g->cg->SD_cost_EDP(y), c.get_sigma_X());
  vc_check("parts", g->cg->FragFn() == g->frag && g->cg->CostFn() == g->cost && g->cg->DelayFn() == g->delay && g->cg->getIM() == g->im);
}
VC_HARNESS(C11, delay_given_demand) {
  G g = std::make_shared<Group>(COUNT);
  double y = vc_real_in("y", 0, 100);
  vc_assume(y > 0);
  vc_cover("start");
  LogNormalDist d = g->delay_at(y);
  vc_check_eq("mean-delay", g->cg->E_delay_EDP(y), d.get_mean_X());
  vc_check_eq("sd-ln-delay", g->cg->SD_ln_delay_EDP(y), d.get_sigma_lnX());
  vc_check_eq("sd-delay", g->cg->SD_delay_EDP(y), d.get_sigma_X());
}
VC_HARNESS(C11, no_loss_fn) {
  bool a = vc_bool("cost"), b = vc_bool("delay");
  G g = std::make_shared<Group>(COUNT, a, b);
  double y = vc_real_in("y", 0, 100);
  vc_cover("start");
  if (!a) { vc_check_eq("cost", g->cg->E_cost_EDP(y), NAN); vc_check_eq("sd-cost", g->cg->SD_ln_cost_EDP(y), NAN); }
  else vc_check_eq("cost", g->cg->E_cost_EDP(y), g->cost_at(y).get_mean_X());
  if (!b) { vc_check_eq("delay", g->cg->E_delay_EDP(y), NAN); vc_check_eq("sd-delay", g->cg->SD_ln_delay_EDP(y), NAN); }
  else vc_check_eq("delay", g->cg->E_delay_EDP(y), g->delay_at(y).get_mean_X());
}
VC_HARNESS(C11, empty) {
  G g = std::make_shared<Group>(vc_int("count", -5, 0));
  double x = vc_real_in("x", 0, 100);
  vc_cover("start");
  vc_check_eq("cost", g->cg->E_cost_IM(x), 0);
  vc_check_eq("sd-cost", g->cg->SD_ln_cost_IM(x), 0);
  vc_check_eq("delay", g->cg->E_delay_IM(x), 0);
  vc_check_eq("sd-delay", g->cg->SD_ln_delay_IM(x), 0);
}
VC_HARNESS(C11, mean_cost) {
  vc_note("smooth");
  G g = std::make_shared<Group>(COUNT);
  double x = vc_real_in("x", 0, 100);
  vc_assume(x > 0);
  vc_cover("start");
  vc_check_int("cost", g->cg->E_cost_IM(x), mean_of(g, true, x));
}
VC_HARNESS(C11, mean_delay) {
  vc_note("smooth");
  G g = std::make_shared<Group>(COUNT);
  double x = vc_real_in("x", 0, 100);
  vc_assume(x > 0);
  vc_cover("start");
  vc_check_int("delay", g->cg->E_delay_IM(x), mean_of(g, false, x));
}
VC_HARNESS(C11, sd_cost) {
  vc_note("smooth");
  G g = std::make_shared<Group>(COUNT);
  double x = vc_real_in("x", 0, 100);
  vc_assume(x > 0);
  vc_cover("start");
  vc_check("sign", g->cg->SD_ln_cost_IM(x) >= 0);
  vc_check_int("sd-cost", g->cg->SD_ln_cost_IM(x), sd_ln_of(g, true, x));
}
// the property over whole groups; fails for count > 1 (known finding: the mean is divided by the count and the deviation is not)
VC_HARNESS(C11, sd_delay_group) {
  vc_note("smooth");
  G g = std::make_shared<Group>(COUNT);
  double x = vc_real_in("x", 0, 100);
  vc_assume(x > 0);
  vc_cover("start");
  vc_check_int("sd-delay", g->cg->SD_ln_delay_IM(x), sd_ln_of(g, false, x));
}
// what remains of it: groups of one component satisfy it, and larger groups either do or fail in the recorded way
VC_HARNESS(C11, sd_delay) {
  vc_note("smooth");
  G g = std::make_shared<Group>(1);
  double x = vc_real_in("x", 0, 100);
  vc_assume(x > 0);
  vc_cover("start");
  vc_check("sign", g->cg->SD_ln_delay_IM(x) >= 0);
  vc_check_int("sd-delay", g->cg->SD_ln_delay_IM(x), sd_ln_of(g, false, x));
}
VC_HARNESS(C11, sd_delay_recorded) {
  vc_note("smooth");
  G g = std::make_shared<Group>(COUNT);
  double x = vc_real_in("x", 0, 100);
  vc_assume(x > 0);
  vc_cover("start");
  double a = g->cg->SD_ln_delay_IM(x);
#ifdef VC_NATIVE
  if (std::fabs(a - sd_ln_of(g, false, x)) < 1e-2) return;
#endif
  if (a != sd_ln_of(g, false, x)) vc_check_int("as-recorded", a, sd_ln_of(g, false, x, g->count));
}
VC_HARNESS(C11, distribution) {
  vc_note("smooth");
  G g = std::make_shared<Group>(COUNT);
  double x = vc_real_in("x", 0, 100);
  vc_assume(x > 0);
  double m = mean_of(g, true, x);
  vc_assume(m > 0);
  vc_cover("start");
  LogNormalDist d = g->cg->CostDist_IM(x);
  vc_check_int("mean", d.get_mean_X(), m);
  vc_check_int("sd", d.get_sigma_lnX(), sd_ln_of(g, true, x));
}
