// C03: mixing, summing and scaling lognormal distributions keep the moments.
#include "vc.h"
#include "lognormaldist.h"
#include <stdexcept>
using namespace SLAT;
static double sq(double x) { return x * x; }
static LogNormalDist mk(int i) {
  return LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(vc_elem("mu", i, -20, 20), vc_elem("s", i, 0, 4));
}
// spec-level moments of component i
static double mean(int i) { double s = vc_elem("s", i, 0, 4); return ::exp(vc_elem("mu", i, -20, 20) + s * s / 2); }
static double var(int i) { double s = vc_elem("s", i, 0, 4); return sq(mean(i)) * (::exp(s * s) - 1); }
static double w(int i) { return vc_elem("w", i, 0, 1); }

VC_HARNESS(C03, sum) {
  int n = vc_int("n", 1, 1 << 30);
  std::vector<LogNormalDist> ds;
  for (int i = 0; i < n; i++) ds.push_back(mk(i));
  double m = 0, v = 0;
  for (int i = 0; i < n; i++) { m += mean(i); v += var(i); }
  vc_cover("start");
  vc_check("positive", m > 0);
  LogNormalDist r = LogNormalDist::AddDistributions(ds);
  vc_check_eq("mean", r.get_mean_X(), m);
  vc_check("sd>=0", r.get_sigma_X() >= 0);
  vc_check_eq("var", sq(r.get_sigma_X()), v);
}
VC_HARNESS(C03, sum_empty) {
  std::vector<LogNormalDist> ds;
  vc_cover("start");
  LogNormalDist r = LogNormalDist::AddDistributions(ds);
  vc_check_eq("mean", r.get_mean_X(), 0);
  vc_check_eq("sd", r.get_sigma_X(), 0);
}
// weights are probabilities of exclusive cases: they sum to one
VC_HARNESS(C03, mixture) {
  int n = vc_int("n", 1, 1 << 30);
  vc_simplex("w", n);
  std::vector<LogNormalDist> ds; std::vector<double> ws;
  for (int i = 0; i < n; i++) { ds.push_back(mk(i)); ws.push_back(w(i)); }
  double m = 0, m2 = 0;
  for (int i = 0; i < n; i++) { m += w(i) * mean(i); m2 += w(i) * (sq(mean(i)) + var(i)); }
  vc_assume(m > 0);
  vc_cover("start");
  // lemma: the variance of a mixture is not negative
  double dev = 0, ev = 0;
  for (int i = 0; i < n; i++) { dev += w(i) * sq(mean(i) - m); ev += w(i) * var(i); }
  vc_check("lemma-dev", dev >= 0);
  vc_check("lemma-ev", ev >= 0);
  vc_check("lemma-var", m2 - m * m >= -1e-9 * m2);
  LogNormalDist r = LogNormalDist::AddWeightedDistributions(ds, ws);
  vc_check_eq("mean", r.get_mean_X(), m);
  vc_check("sd>=0", r.get_sigma_X() >= 0);
  vc_check_eq("second-moment", sq(r.get_sigma_X()) + sq(r.get_mean_X()), m2);
}
// weights all zero: zero distribution
VC_HARNESS(C03, mixture_zero) {
  int n = vc_int("n", 0, 1 << 30);
  std::vector<LogNormalDist> ds; std::vector<double> ws;
  for (int i = 0; i < n; i++) { ds.push_back(mk(i)); ws.push_back(0); }
  vc_cover("start");
  LogNormalDist r = LogNormalDist::AddWeightedDistributions(ds, ws);
  vc_check_eq("mean", r.get_mean_X(), 0);
  vc_check_eq("sd", r.get_sigma_X(), 0);
}
VC_HARNESS(C03, mixture_sizes) {
  int n = vc_int("n", 0, 1 << 20), k = vc_int("k", 0, 1 << 20);
  vc_assume(n != k);
  std::vector<LogNormalDist> ds; std::vector<double> ws;
  for (int i = 0; i < n; i++) ds.push_back(mk(i));
  for (int i = 0; i < k; i++) ws.push_back(w(i));
  vc_cover("start");
  bool thrown = false;
  try { LogNormalDist::AddWeightedDistributions(ds, ws); } catch (std::exception &e) { thrown = true; }
  vc_check("rejected", thrown);
}
VC_HARNESS(C03, scale) {
  double mu = vc_real_in("mu", -30, 30), s = vc_real_in("s", 0, 6), f = vc_real_in("f", 0, 1e9);
  vc_assume(f > 0);
  vc_cover("start");
  LogNormalDist d = LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(mu, s);
  double m = ::exp(mu + s * s / 2);
  LogNormalDist a = d.ApplyAdjustmentFactor(f), b = d.ScaleDistributionByProbability(f), c = d.ScaleDistributionByNumComponents(f);
  vc_check_eq("a.mean", a.get_mean_X(), f * m); vc_check_eq("a.s", a.get_sigma_lnX(), s);
  vc_check_eq("b.mean", b.get_mean_X(), f * m); vc_check_eq("b.s", b.get_sigma_lnX(), s);
  vc_check_eq("c.mean", c.get_mean_X(), f * m); vc_check_eq("c.s", c.get_sigma_lnX(), s);
  vc_check_eq("unchanged.mu", d.get_mu_lnX(), mu); vc_check_eq("unchanged.s", d.get_sigma_lnX(), s);
}
