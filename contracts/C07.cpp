// C07: probabilistic curves agree with the lognormal their two curves describe.
#include "vc.h"
#include "functions.h"
#include "curves.h"
#include <gsl/gsl_cdf.h>
#include <cmath>
#include <stdexcept>
using namespace SLAT;
static double sq(double x) { return x * x; }
// mu, s: the parameters determined by the two curves
static void statistics(LogNormalFn &f, double x, double mu, double s2) {
  double y = vc_real_in("y", 0, 1e9), p = vc_real_in("p", 0, 1);
  vc_assume(y > 0); vc_assume(p > 0); vc_assume(p < 1);
  vc_cover("start");
  double s = sqrt(s2);
  vc_check_eq("mean-ln", f.MeanLn(x), mu);
  vc_check("sd-ln-sign", f.SD_ln(x) >= 0);
  vc_check_eq("sd-ln", sq(f.SD_ln(x)), s2);
  vc_check_eq("median", f.Median(x), ::exp(mu));
  vc_check_eq("mean", f.Mean(x), ::exp(mu + s2 / 2));
  vc_check("sd-sign", f.SD(x) >= 0);
  vc_check_eq("sd", sq(f.SD(x)), sq(::exp(mu + s2 / 2)) * (::exp(s2) - 1));
  vc_assume(s2 > 0);
  vc_check_eq("exceedence", f.P_exceedence(x, y), 1 - gsl_cdf_ugaussian_P((::log(y) - mu) / s));
  vc_check_eq("quantile", f.X_at_exceedence(x, p), ::exp(mu + s * gsl_cdf_ugaussian_Pinv(p)));
}
VC_HARNESS(C07, meanln_sdln) {
  auto m = std::make_shared<Curve>("m", -20, 20); auto s = std::make_shared<Curve>("s", 0, 4);
  double x = vc_real_in("x", 0, 1e6);
  LogNormalFn f(m, LogNormalFn::MEAN_LN_X, s, LogNormalFn::SIGMA_LN_X);
  statistics(f, x, m->at(x), sq(s->at(x)));
}
VC_HARNESS(C07, mean_sdln) {
  auto m = std::make_shared<Curve>("m", 0, 1e6); auto s = std::make_shared<Curve>("s", 0, 4);
  double x = vc_real_in("x", 0, 1e6);
  LogNormalFn f(m, LogNormalFn::MEAN_X, s, LogNormalFn::SIGMA_LN_X);
  vc_assume(m->at(x) > 0);
  statistics(f, x, ::log(m->at(x)) - sq(s->at(x)) / 2, sq(s->at(x)));
}
VC_HARNESS(C07, median_sdln) {
  auto m = std::make_shared<Curve>("m", 0, 1e6); auto s = std::make_shared<Curve>("s", 0, 4);
  double x = vc_real_in("x", 0, 1e6);
  LogNormalFn f(m, LogNormalFn::MEDIAN_X, s, LogNormalFn::SIGMA_LN_X);
  vc_assume(m->at(x) > 0);
  statistics(f, x, ::log(m->at(x)), sq(s->at(x)));
}
VC_HARNESS(C07, mean_sd) {
  auto m = std::make_shared<Curve>("m", 0, 1e6); auto s = std::make_shared<Curve>("s", 0, 1e6);
  double x = vc_real_in("x", 0, 1e6);
  LogNormalFn f(m, LogNormalFn::MEAN_X, s, LogNormalFn::SIGMA_X);
  vc_assume(m->at(x) > 0);
  double s2 = ::log(1 + sq(s->at(x) / m->at(x)));
  statistics(f, x, ::log(m->at(x)) - s2 / 2, s2);
}
// SD with the median: sd^2 = median^2 v (v-1) with v = exp(s^2)
VC_HARNESS(C07, median_sd) {
  auto m = std::make_shared<Curve>("m", 0, 1e6); auto s = std::make_shared<Curve>("s", 0, 1e6);
  double x = vc_real_in("x", 0, 1e6);
  LogNormalFn f(m, LogNormalFn::MEDIAN_X, s, LogNormalFn::SIGMA_X);
  vc_assume(m->at(x) > 0);
  double s2 = ::log((1 + sqrt(1 + 4 * sq(s->at(x) / m->at(x)))) / 2);
  statistics(f, x, ::log(m->at(x)), s2);
}
VC_HARNESS(C07, meanln_sd) {
  auto m = std::make_shared<Curve>("m", -20, 20); auto s = std::make_shared<Curve>("s", 0, 1e6);
  double x = vc_real_in("x", 0, 1e6);
  LogNormalFn f(m, LogNormalFn::MEAN_LN_X, s, LogNormalFn::SIGMA_X);
  double s2 = ::log((1 + sqrt(1 + 4 * sq(s->at(x) / ::exp(m->at(x))))) / 2);
  statistics(f, x, m->at(x), s2);
}
VC_HARNESS(C07, unknown_kinds) {
  auto m = std::make_shared<Curve>("m", 0, 1e6); auto s = std::make_shared<Curve>("s", 0, 4);
  int a = vc_int("a", 0, 3), b = vc_int("b", 0, 2);
  vc_assume(a == 0 || b == 0);
  vc_cover("start");
  bool thrown = false;
  try { LogNormalFn f(m, (LogNormalFn::M_TYPE)a, s, (LogNormalFn::S_TYPE)b); } catch (std::exception &e) { thrown = true; }
  vc_check("rejected", thrown);
}
