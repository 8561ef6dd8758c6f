// C02: tail probabilities and quantiles of a distribution are coherent.
#include "vc.h"
#include "lognormaldist.h"
#include <gsl/gsl_cdf.h>
using namespace SLAT;
static LogNormalDist mk(double mu, double s) { return LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(mu, s); }
static bool isnan_(double x) { return x != x; }

// the chance of not exceeding x>0 is PHI((ln x - mu)/s)
VC_HARNESS(C02, cdf) {
  double mu = vc_real_in("mu", -30, 30), s = vc_real_in("s", 0, 6), x = vc_real_in("x", 0, 1e12);
  vc_assume(s > 0); vc_assume(x > 0);
  vc_cover("start");
  LogNormalDist d = mk(mu, s);
  double phi = gsl_cdf_ugaussian_P((::log(x) - mu) / s);
  vc_check_eq("at-most", d.p_at_most(x), phi);
  vc_check_eq("at-least", d.p_at_least(x), 1 - phi);
}
VC_HARNESS(C02, range_complement) {
  double mu = vc_real_in("mu", -30, 30), s = vc_real_in("s", 0, 6), x = vc_real_in("x", 0, 1e12);
  vc_assume(s > 0);
  vc_cover("start");
  LogNormalDist d = mk(mu, s);
  double p = d.p_at_most(x), q = d.p_at_least(x);
  vc_check("p>=0", p >= 0); vc_check("p<=1", p <= 1);
  vc_check("q>=0", q >= 0); vc_check("q<=1", q <= 1);
  vc_check_eq("complement", p + q, 1);
}
VC_HARNESS(C02, infinity) {
  double mu = vc_real_in("mu", -30, 30), s = vc_real_in("s", 0, 6);
  vc_assume(s > 0);
  vc_cover("start");
  LogNormalDist d = mk(mu, s);
  vc_check_eq("at-most", d.p_at_most(VC_INF), 1);
  vc_check_eq("at-least", d.p_at_least(VC_INF), 0);
  vc_check_eq("at-most-0", d.p_at_most(0), 0);
  vc_check_eq("at-least-0", d.p_at_least(0), 1);
}
VC_HARNESS(C02, monotone) {
  double mu = vc_real_in("mu", -30, 30), s = vc_real_in("s", 0, 6), x = vc_real_in("x", 0, 1e12), y = vc_real_in("y", 0, 1e12);
  vc_assume(s > 0); vc_assume(x <= y);
  vc_cover("start");
  LogNormalDist d = mk(mu, s);
  vc_check("at-most", d.p_at_most(x) <= d.p_at_most(y));
  vc_check("at-least", d.p_at_least(x) >= d.p_at_least(y));
}
VC_HARNESS(C02, quantile) {
  double mu = vc_real_in("mu", -30, 30), s = vc_real_in("s", 0, 6), p = vc_real_in("p", 0, 1);
  vc_assume(s > 0); vc_assume(p > 0); vc_assume(p < 1);
  vc_cover("start");
  LogNormalDist d = mk(mu, s);
  vc_check_eq("value", d.x_at_p(p), ::exp(mu + s * gsl_cdf_ugaussian_Pinv(p)));
  vc_check_eq("inverse", d.p_at_most(d.x_at_p(p)), p);
}
VC_HARNESS(C02, quantile_ends) {
  double mu = vc_real_in("mu", -30, 30), s = vc_real_in("s", 0, 6);
  vc_assume(s > 0);
  vc_cover("start");
  LogNormalDist d = mk(mu, s);
  vc_check_eq("p=0", d.x_at_p(0), 0);
  vc_check_eq("p=1", d.x_at_p(1), VC_INF);
}
VC_HARNESS(C02, median) {
  double mu = vc_real_in("mu", -30, 30), s = vc_real_in("s", 0, 6);
  vc_assume(s > 0);
  vc_cover("start");
  LogNormalDist d = mk(mu, s);
  vc_check_eq("median", d.p_at_most(d.get_median_X()), 0.5);
}
VC_HARNESS(C02, undefined) {
  double x = vc_any("x"), s = vc_real_in("s", 0, 6), p = vc_real_in("p", 0, 1);
  LogNormalDist d;
  vc_cover("start");
  vc_check("at-most", isnan_(d.p_at_most(x)));
  vc_check("at-least", isnan_(d.p_at_least(x)));
  vc_check("quantile", isnan_(d.x_at_p(p)) || p == 0 || p == 1);
  vc_check("mean", isnan_(d.get_mean_X()));
  vc_check("sd", isnan_(d.get_sigma_X()));
  vc_check("median", isnan_(d.get_median_X()));
  LogNormalDist l = mk(__builtin_nan(""), s);
  vc_check_eq("location-only", l.p_at_least(x), 0);
}
