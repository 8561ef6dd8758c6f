// C01: lognormal parameterisations agree with the textbook relations.
#include "vc.h"
#include "lognormaldist.h"
using namespace SLAT;
static double sq(double x) { return x * x; }

// mean of exp(N(mu,s^2)) is exp(mu+s^2/2); median exp(mu); variance mean^2 (exp(s^2)-1)
static void relations(const LogNormalDist &d, double mu, double s)
{
  vc_check_eq("mu", d.get_mu_lnX(), mu);
  vc_check_eq("sigma", d.get_sigma_lnX(), s);
  vc_check_eq("median", d.get_median_X(), ::exp(mu));
  vc_check_eq("mean", d.get_mean_X(), ::exp(mu + s * s / 2));
  double sd = d.get_sigma_X();
  vc_check("sd-sign", sd >= 0);
  vc_check_eq("sd", sq(sd), sq(::exp(mu + s * s / 2)) * (::exp(s * s) - 1));
}
VC_HARNESS(C01, mu_sigma) {
  double mu = vc_real_in("mu", -50, 50), s = vc_real_in("s", 0, 6);
  vc_cover("start");
  relations(LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(mu, s), mu, s);
}
VC_HARNESS(C01, mean_sigma) {
  double m = vc_real_in("m", 0, 1e12), s = vc_real_in("s", 0, 6);
  vc_assume(m > 0);
  vc_cover("start");
  LogNormalDist d = LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(m, s);
  vc_check_eq("mean-kept", d.get_mean_X(), m);
  vc_check_eq("sigma-kept", d.get_sigma_lnX(), s);
  relations(d, ::log(m) - s * s / 2, s);
}
VC_HARNESS(C01, mean_sd) {
  double m = vc_real_in("m", 0, 1e12), sd = vc_real_in("sd", 0, 1e12);
  vc_assume(m > 0);
  vc_cover("start");
  LogNormalDist d = LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(m, sd);
  vc_check_eq("mean-kept", d.get_mean_X(), m);
  vc_check_eq("sd-kept", d.get_sigma_X(), sd);
  double v = ::log(1 + sq(sd / m));
  vc_check("sigma-sign", d.get_sigma_lnX() >= 0);
  vc_check_eq("sigma", sq(d.get_sigma_lnX()), v);
  vc_check_eq("mu", d.get_mu_lnX(), ::log(m) - v / 2);
  vc_check_eq("median", d.get_median_X(), ::exp(::log(m) - v / 2));
}
VC_HARNESS(C01, median_sigma) {
  double md = vc_real_in("md", 0, 1e12), s = vc_real_in("s", 0, 6);
  vc_assume(md > 0);
  vc_cover("start");
  LogNormalDist d = LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX(md, s);
  vc_check_eq("median-kept", d.get_median_X(), md);
  vc_check_eq("sigma-kept", d.get_sigma_lnX(), s);
  relations(d, ::log(md), s);
}
// degenerate: mean 0 is the distribution concentrated at 0
VC_HARNESS(C01, zero_mean) {
  double s = vc_real_in("s", 0, 6);
  vc_cover("start");
  LogNormalDist d = LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(0, s);
  vc_check_eq("mean", d.get_mean_X(), 0);
  vc_check_eq("sd", d.get_sigma_X(), 0);
  vc_check_eq("median", d.get_median_X(), 0);
  vc_check_eq("sigma", d.get_sigma_lnX(), s);
  LogNormalDist e = LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(0, vc_real_in("sd", 0, 1e9));
  vc_check_eq("mean2", e.get_mean_X(), 0);
  vc_check_eq("sd2", e.get_sigma_X(), 0);
}
// round trips between parameterisations
VC_HARNESS(C01, roundtrip) {
  double mu = vc_real_in("mu", -50, 50), s = vc_real_in("s", 0, 6);
  vc_cover("start");
  LogNormalDist d = LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(mu, s);
  LogNormalDist a = LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(d.get_mean_X(), d.get_sigma_lnX());
  LogNormalDist b = LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX(d.get_median_X(), d.get_sigma_lnX());
  LogNormalDist c = LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(d.get_mean_X(), d.get_sigma_X());
  vc_check_eq("a.mu", a.get_mu_lnX(), mu); vc_check_eq("a.s", a.get_sigma_lnX(), s);
  vc_check_eq("b.mu", b.get_mu_lnX(), mu); vc_check_eq("b.s", b.get_sigma_lnX(), s);
  vc_check_eq("c.mu", c.get_mu_lnX(), mu); vc_check_eq("c.s", c.get_sigma_lnX(), s);
}
// a default-constructed distribution has no parameters; a copy has the same ones
VC_HARNESS(C01, copy_default) {
  LogNormalDist z;
  vc_check("default-mu", z.get_mu_lnX() != z.get_mu_lnX());
  vc_check("default-s", z.get_sigma_lnX() != z.get_sigma_lnX());
  double mu = vc_real_in("mu", -50, 50), s = vc_real_in("s", 0, 6);
  LogNormalDist d = LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(mu, s);
  LogNormalDist e(d); z = d;
  vc_cover("start");
  vc_check_eq("copy-mu", e.get_mu_lnX(), mu); vc_check_eq("copy-s", e.get_sigma_lnX(), s);
  vc_check_eq("assign-mu", z.get_mu_lnX(), mu); vc_check_eq("assign-s", z.get_sigma_lnX(), s);
}
