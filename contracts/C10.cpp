// C10: demand hazard and statistics of demands.
#include "hazard.h"
#include "relationships.h"
using namespace SLAT;
static LogNormalDist dist(double mu, double s) { return LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(mu, s); }
#define MU(n) vc_real_in("mu" n, -3, 3)
#define SG(n) vc_real_in("s" n, 0.05, 2)
typedef std::function<double(double)> Fn;
// rate of exceeding z for a response with exceedance probability pe, fates given by pc and pd
static double rate(Fn h, Fn pe, Fn pc, Fn pd) {
  return integral_or(NAN, [=](double x) -> double {
    if (x == 0) return 0;
    double repair = 1 - pc(x) - (pd(x) - pc(x));
    return (pe(x) * repair + (1 - repair)) * std::fabs(slope(h, x));
  });
}
static double zero(double) { return 0; }
static void setup(IM &im, Fn &pc, Fn &pd, bool c, bool d) {
  double mc = MU("c"), sc = SG("c"), md = MU("d"), sd = SG("d");
  pc = zero; pd = zero;
  if (c) { im.SetCollapse(dist(mc, sc)); pc = [=](double x) { return lnp(mc, sc, x); }; pd = pc; }
  if (d) { im.SetDemolition(dist(md, sd)); pd = [=](double x) { return lnp(md, sd, x); }; }
}
VC_HARNESS(C10, rate) {
  vc_note("smooth");
  auto h = std::make_shared<Curve>("h", 0, 10); auto im = std::make_shared<IM>(h);
  Fn pc, pd; setup(*im, pc, pd, vc_bool("collapse"), vc_bool("demolition"));
  auto r = RESPONSE("r");
  EDP edp(im, r);
  double z = vc_real_in("z", 0, 100);
  vc_cover("start");
  vc_check_int("rate", edp.lambda(z), rate([h](double x) { return h->at(x); }, [r, z](double x) { return r->P_exceedence(x, z); }, pc, pd));
}
VC_HARNESS(C10, rate_failure) {
  auto h = std::make_shared<WildCurve>("h"); auto im = std::make_shared<IM>(h);
  Fn pc, pd; setup(*im, pc, pd, true, true);
  auto r = RESPONSE("r");
  EDP edp(im, r);
  double z = vc_real_in("z", 0, 100);
  vc_cover("start");
  vc_check_int("rate", edp.lambda(z), rate([h](double x) { return h->at(x); }, [r, z](double x) { return r->P_exceedence(x, z); }, pc, pd));
}
VC_HARNESS(C10, rate_lognormal) {
  vc_note("smooth");
  auto h = std::make_shared<Curve>("h", 0, 10); auto im = std::make_shared<IM>(h);
  Fn pc, pd; setup(*im, pc, pd, true, true);
  auto m = std::make_shared<Curve>("m", -3, 3); auto s = std::make_shared<Curve>("s", 0.05, 2);
  EDP edp(im, std::make_shared<LogNormalFn>(m, LogNormalFn::MEAN_LN_X, s, LogNormalFn::SIGMA_LN_X));
  double z = vc_real_in("z", 0, 100);
  vc_assume(z > 0);
  vc_cover("start");
  vc_check_int("rate", edp.lambda(z), rate([h](double x) { return h->at(x); }, [m, s, z](double x) { return gsl_cdf_lognormal_Q(z, m->at(x), s->at(x)); }, pc, pd));
}
VC_HARNESS(C10, statistics) {
  auto im = std::make_shared<IM>(std::make_shared<Curve>("h", 0, 10)); auto r = RESPONSE("r");
  EDP e(im, r, "edp");
  double x = vc_real_in("x", 0, 1e6), y = vc_real_in("y", 0, 1e6);
  vc_cover("start");
  vc_check_eq("mean", e.Mean(x), r->Mean(x));
  vc_check_eq("mean-ln", e.MeanLn(x), r->MeanLn(x));
  vc_check_eq("median", e.Median(x), r->Median(x));
  vc_check_eq("sd-ln", e.SD_ln(x), r->SD_ln(x));
  vc_check_eq("sd", e.SD(x), r->SD(x));
  vc_check_eq("exceedence", e.P_exceedence(x, y), r->P_exceedence(x, y));
  vc_check_eq("quantile", e.X_at_exceedence(x, y), r->X_at_exceedence(x, y));
  vc_check("base", e.Base_Rate() == im);
}
static void same(const EDP &e, const ProbabilisticFn &r, double x, double y) {
  vc_check_eq("mean", e.Mean(x), r.Mean(x));
  vc_check_eq("mean-ln", e.MeanLn(x), r.MeanLn(x));
  vc_check_eq("median", e.Median(x), r.Median(x));
  vc_check_eq("sd-ln", e.SD_ln(x), r.SD_ln(x));
  vc_check_eq("sd", e.SD(x), r.SD(x));
  vc_check_eq("exceedence", e.P_exceedence(x, y), r.P_exceedence(x, y));
  vc_check_eq("quantile", e.X_at_exceedence(x, y), r.X_at_exceedence(x, y));
}
VC_HARNESS(C10, compound_statistics) {
  auto im = std::make_shared<IM>(std::make_shared<Curve>("h", 0, 10)); auto a = RESPONSE("a"); auto b = RESPONSE("b");
  CompoundEDP e(im, a, b);
  double x = vc_real_in("x", 0, 1e6), y = vc_real_in("y", 0, 1e6);
  vc_cover("start");
  if (a->Mean(x) > b->Mean(x)) same(e, *a, x, y); else same(e, *b, x, y);
}
VC_HARNESS(C10, compound_ties) {
  auto im = std::make_shared<IM>(std::make_shared<Curve>("h", 0, 10)); auto a = RESPONSE("a");
  auto b = std::make_shared<Response>("b.p", "b.q", "a.mean", "b.meanln", "b.median", "b.sdln", "b.sd");   // same means
  CompoundEDP e(im, a, b);
  double x = vc_real_in("x", 0, 1e6), y = vc_real_in("y", 0, 1e6);
  vc_cover("start");
  same(e, *b, x, y);
}
VC_HARNESS(C10, compound_rate) {
  vc_note("smooth");
  auto h = std::make_shared<Curve>("h", 0, 10); auto im = std::make_shared<IM>(h);
  Fn pc, pd; setup(*im, pc, pd, vc_bool("collapse"), vc_bool("demolition"));
  auto a = RESPONSE("a"), b = RESPONSE("b");
  CompoundEDP edp(im, a, b, "compound");
  double z = vc_real_in("z", 0, 100);
  vc_cover("start");
  vc_check_int("rate", edp.lambda(z), rate([h](double x) { return h->at(x); }, [a, b, z](double x) { return a->Mean(x) > b->Mean(x) ? a->P_exceedence(x, z) : b->P_exceedence(x, z); }, pc, pd));
}
