// C08: the fates of a building have probabilities that sum to one.
#include "vc.h"
#include "relationships.h"
#include "curves.h"
using namespace SLAT;
static LogNormalDist dist(const char *m, const char *s) {
  return LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(vc_real_in(m, -20, 20), vc_real_in(s, 0, 4));
}
static void fates(bool collapse, bool demolition, bool by_ptr) {
  IM im(std::make_shared<Curve>("h", 0, 1e6));
  LogNormalDist c = dist("mc", "sc"), d = dist("md", "sd");
  vc_assume(c.get_sigma_lnX() > 0); vc_assume(d.get_sigma_lnX() > 0);
  if (by_ptr) {
    if (collapse) im.SetCollapse(std::make_shared<LogNormalDist>(c));
    if (demolition) im.SetDemolition(std::make_shared<LogNormalDist>(d));
  } else {
    if (collapse) im.SetCollapse(c);
    if (demolition) im.SetDemolition(d);
  }
  double x = vc_real_in("x", 0, 1e6);
  vc_cover("start");
  double pc = collapse ? c.p_at_most(x) : 0;
  double pd = demolition ? d.p_at_most(x) - pc : 0;
  vc_check_eq("collapse", im.pCollapse(x), pc);
  vc_check_eq("demolition", im.pDemolition(x), pd);
  vc_check_eq("repair", im.pRepair(x), 1 - pc - pd);
  vc_check_eq("sum", im.pCollapse(x) + im.pDemolition(x) + im.pRepair(x), 1);
}
VC_HARNESS(C08, values) { fates(vc_bool("collapse"), vc_bool("demolition"), false); }
VC_HARNESS(C08, pointers) { fates(vc_bool("collapse"), vc_bool("demolition"), true); }
// a distribution set and then unset counts as never set
VC_HARNESS(C08, unset) {
  IM im(std::make_shared<Curve>("h", 0, 1e6));
  im.SetCollapse(std::shared_ptr<LogNormalDist>()); im.SetDemolition(std::shared_ptr<LogNormalDist>());
  double x = vc_real_in("x", 0, 1e6);
  vc_cover("start");
  vc_check_eq("collapse", im.pCollapse(x), 0);
  vc_check_eq("demolition", im.pDemolition(x), 0);
  vc_check_eq("repair", im.pRepair(x), 1);
}
// the last distribution set is the one in force
VC_HARNESS(C08, replaced) {
  IM im(std::make_shared<Curve>("h", 0, 1e6));
  LogNormalDist c = dist("mc", "sc"), d = dist("md", "sd"), c2 = dist("mc2", "sc2"), d2 = dist("md2", "sd2");
  vc_assume(c2.get_sigma_lnX() > 0); vc_assume(d2.get_sigma_lnX() > 0);
  im.SetCollapse(c); im.SetDemolition(d); im.SetDemolition(d2); im.SetCollapse(c2);
  double x = vc_real_in("x", 0, 1e6);
  vc_cover("start");
  vc_check_eq("collapse", im.pCollapse(x), c2.p_at_most(x));
  vc_check_eq("demolition", im.pDemolition(x), d2.p_at_most(x) - c2.p_at_most(x));
  vc_check_eq("repair", im.pRepair(x), 1 - d2.p_at_most(x));
}
