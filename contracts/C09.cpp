// C09: collapse and demolition rates are integrals over the hazard curve.
#include "hazard.h"
#include "relationships.h"
using namespace SLAT;
struct Dist { double mu, s; LogNormalDist d; };
static LogNormalDist dist(double mu, double s) { return LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(mu, s); }
#define MU(n) vc_real_in("mu" n, -3, 3)
#define SG(n) vc_real_in("s" n, 0.05, 2)
VC_HARNESS(C09, slope) {
  auto h = std::make_shared<Curve>("h", 0, 10);
  double x = vc_real_in("x", 0, 1e6);
  vc_assume(x > 0);
  vc_cover("start");
  IM im(h);
  vc_check_int("lambda", im.lambda(x), h->at(x));
  vc_note("smooth");
  vc_check_int("slope", im.DerivativeAt(x), slope([h](double y) { return h->at(y); }, x));
}
// curves with gaps: one-sided slopes at the edges
VC_HARNESS(C09, slope_edges) {
  auto h = std::make_shared<WildCurve>("h");
  double x = vc_real_in("x", 0, 1e6);
  vc_cover("start");
  IM im(h);
  double d = im.DerivativeAt(x), e = slope([h](double y) { return h->at(y); }, x);
  vc_check("defined", (d != d) == (e != e));
  vc_check_int("slope", d, e);
}
VC_HARNESS(C09, none) {
  auto h = std::make_shared<WildCurve>("h");
  vc_cover("start");
  IM im(h);
  vc_check_eq("collapse", im.CollapseRate(), 0);
  vc_check_eq("demolition", im.DemolitionRate(), 0);
}
VC_HARNESS(C09, collapse) {
  vc_note("smooth");
  auto h = std::make_shared<Curve>("h", 0, 10);
  double mu = MU("c"), s = SG("c");
  vc_cover("start");
  IM im(h);
  if (vc_bool("pointer")) im.SetCollapse(std::make_shared<LogNormalDist>(dist(mu, s))); else im.SetCollapse(dist(mu, s));
  double e = integral_or(NAN, [h, mu, s](double x) { return std::fabs(slope([h](double y) { return h->at(y); }, x)) * lnp(mu, s, x); });
  vc_check_int("rate", im.CollapseRate(), e);
  vc_check_eq("demolition", im.DemolitionRate(), 0);
}
VC_HARNESS(C09, demolition) {
  vc_note("smooth");
  auto h = std::make_shared<Curve>("h", 0, 10);
  double mu = MU("d"), s = SG("d");
  vc_cover("start");
  IM im(h);
  if (vc_bool("pointer")) im.SetDemolition(std::make_shared<LogNormalDist>(dist(mu, s))); else im.SetDemolition(dist(mu, s));
  double e = integral_or(NAN, [h, mu, s](double x) { return std::fabs(slope([h](double y) { return h->at(y); }, x)) * lnp(mu, s, x); });
  vc_check_int("rate", im.DemolitionRate(), e);
  vc_check_eq("collapse", im.CollapseRate(), 0);
}
VC_HARNESS(C09, both) {
  vc_note("smooth");
  auto h = std::make_shared<Curve>("h", 0, 10);
  double mc = MU("c"), sc = SG("c"), md = MU("d"), sd = SG("d");
  vc_cover("start");
  IM im(h, "im");
  im.SetCollapse(dist(mc, sc)); im.SetDemolition(dist(md, sd));
  auto g = [h](double y) { return h->at(y); };
  vc_check_int("collapse", im.CollapseRate(), integral_or(NAN, [=](double x) { return std::fabs(slope(g, x)) * lnp(mc, sc, x); }));
  vc_check_int("demolition", im.DemolitionRate(), integral_or(NAN, [=](double x) { return std::fabs(slope(g, x)) * (lnp(md, sd, x) - lnp(mc, sc, x)); }));
}
// a hazard curve that is undefined somewhere: whatever happens, a failed integration reads as undefined
VC_HARNESS(C09, failure) {
  auto h = std::make_shared<WildCurve>("h");
  double mc = MU("c"), sc = SG("c"), md = MU("d"), sd = SG("d");
  vc_cover("start");
  IM im(h, "im");
  im.SetCollapse(dist(mc, sc)); im.SetDemolition(dist(md, sd));
  auto g = [h](double y) { return h->at(y); };
  double c = integral_or(NAN, [=](double x) { return std::fabs(slope(g, x)) * lnp(mc, sc, x); });
  double d = integral_or(NAN, [=](double x) { return std::fabs(slope(g, x)) * (lnp(md, sd, x) - lnp(mc, sc, x)); });
  vc_check_int("collapse", im.CollapseRate(), c);
  vc_check_int("demolition", im.DemolitionRate(), d);
}
