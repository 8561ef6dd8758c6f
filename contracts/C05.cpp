// C05: loss given damage is the probability-weighted loss times count and factor.
#include "vc.h"
#include "loss_functions.h"
#include <stdexcept>
using namespace SLAT;
static double sq(double x) { return x * x; }
static LogNormalDist mk(int i) {
  return LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(vc_elem("mu", i, -20, 20), vc_elem("s", i, 0, 4));
}
static double mean(int i) { double s = vc_elem("s", i, 0, 4); return ::exp(vc_elem("mu", i, -20, 20) + s * s / 2); }
static double m2(int i) { double s = vc_elem("s", i, 0, 4); return sq(mean(i)) * ::exp(s * s); }
static double p(int i) { return vc_elem("p", i, 0, 1); }

VC_HARNESS(C05, simple) {
  int n = vc_int("n", 1, 1 << 30), count = vc_int("count", 1, 1000000);
  double f = vc_real_in("f", 0, 1e6);
  vc_assume(f > 0);
  vc_simplex("p", n);
  std::vector<LogNormalDist> ds; std::vector<double> ps;
  for (int i = 0; i < n; i++) { ds.push_back(mk(i)); ps.push_back(p(i)); }
  double M = 0, Q = 0;
  for (int i = 0; i < n; i++) { M += p(i) * mean(i); Q += p(i) * m2(i); }
  vc_assume(M > 0);
  double dev = 0, ev = 0;
  for (int i = 0; i < n; i++) { dev += p(i) * sq(mean(i) - M); ev += p(i) * (m2(i) - sq(mean(i))); }
  vc_check("lemma-dev", dev >= 0);
  vc_check("lemma-ev", ev >= 0);
  vc_check("lemma-var", Q - M * M >= -1e-9 * Q);
  vc_cover("start");
  SimpleLossFn L(ds);
  vc_check("n_states", (int)L.n_states() == n);
  LogNormalDist r = L.CalculateLoss(ps, count, f);
  vc_check_eq("mean", r.get_mean_X(), count * f * M);
  vc_check_eq("dispersion", ::exp(sq(r.get_sigma_lnX())), Q / (M * M));
}
VC_HARNESS(C05, simple_sizes) {
  int n = vc_int("n", 1, 1 << 20), k = vc_int("k", 0, 1 << 20);
  vc_assume(n != k);
  std::vector<LogNormalDist> ds; std::vector<double> ps;
  for (int i = 0; i < n; i++) ds.push_back(mk(i));
  for (int i = 0; i < k; i++) ps.push_back(p(i));
  vc_cover("start");
  SimpleLossFn L(ds);
  bool thrown = false;
  try { L.CalculateLoss(ps, 1, 1); } catch (std::exception &e) { thrown = true; }
  vc_check("rejected", thrown);
}
VC_HARNESS(C05, empty) {
  bool a = false, b = false;
  vc_cover("start");
  std::vector<LogNormalDist> ds; std::vector<std::shared_ptr<BiLevelLoss> > bs;
  try { SimpleLossFn L(ds); } catch (std::exception &e) { a = true; }
  try { BiLevelLossFn L(bs); } catch (std::exception &e) { b = true; }
  vc_check("simple", a); vc_check("bilevel", b);
}
// the per-component cost follows the two levels; costs are positive: multiples, at least one, of an arbitrary unit
static double unit() { return vc_real_in("unit", 0.01, 100); }
static double level(int i, int count) {
  int lo = vc_elem_int("lo", i, 0, 100000), hi = lo + vc_elem_int("gap", i, 0, 100000);
  double a = unit() * vc_elem("at_lo", i, 1, 1e6), b = unit() * vc_elem("at_hi", i, 1, 1e6);
  if (count <= lo) return a;
  if (count >= hi) return b;
  return a + (b - a) * ((double)count - lo) / ((double)hi - lo);
}
static std::shared_ptr<BiLevelLoss> bl(int i) {
  int lo = vc_elem_int("lo", i, 0, 100000);
  return std::make_shared<BiLevelLoss>(lo, lo + vc_elem_int("gap", i, 0, 100000), unit() * vc_elem("at_lo", i, 1, 1e6), unit() * vc_elem("at_hi", i, 1, 1e6), vc_elem("d", i, 0, 4));
}
VC_HARNESS(C05, level) {
  int count = vc_int("count", 0, 200000);
  vc_cover("start");
  std::shared_ptr<BiLevelLoss> b = bl(0);
  LogNormalDist r = b->LossFunctionsForCount(count);
  vc_check_eq("mean", r.get_mean_X(), level(0, count));
  vc_check_eq("dispersion", r.get_sigma_lnX(), vc_elem("d", 0, 0, 4));
}
VC_HARNESS(C05, bilevel) {
  int n = vc_int("n", 1, 1 << 30), count = vc_int("count", 1, 200000);
  double f = vc_real_in("f", 0, 1e6);
  vc_assume(f > 0);
  vc_simplex("p", n);
  std::vector<std::shared_ptr<BiLevelLoss> > bs; std::vector<double> ps;
  for (int i = 0; i < n; i++) { bs.push_back(bl(i)); ps.push_back(p(i)); }
  double M = 0, Q = 0, tot = 0;
  for (int i = 0; i < n; i++) { double m = level(i, count); tot += p(i); M += p(i) * m; Q += p(i) * sq(m) * ::exp(sq(vc_elem("d", i, 0, 4))); }
  vc_check("lemma-level", M - unit() * tot >= -1e-9 * M);   // no level costs less than the unit
  vc_check("lemma-positive", M > 0);
  double dev = 0, ev = 0;
  for (int i = 0; i < n; i++) { double m = level(i, count); dev += p(i) * sq(m - M); ev += p(i) * sq(m) * (::exp(sq(vc_elem("d", i, 0, 4))) - 1); }
  vc_check("lemma-dev", dev >= 0);
  vc_check("lemma-ev", ev >= 0);
  vc_check("lemma-var", Q - M * M >= -1e-9 * Q);
  vc_cover("start");
  BiLevelLossFn L(bs);
  vc_check("n_states", (int)L.n_states() == n);
  LogNormalDist r = L.CalculateLoss(ps, count, f);
  vc_check_eq("mean", r.get_mean_X(), count * f * M);
  vc_check_eq("dispersion", ::exp(sq(r.get_sigma_lnX())), Q / (M * M));
}
VC_HARNESS(C05, bilevel_sizes) {
  int n = vc_int("n", 1, 1 << 20), k = vc_int("k", 0, 1 << 20);
  vc_assume(n != k);
  std::vector<std::shared_ptr<BiLevelLoss> > bs; std::vector<double> ps;
  for (int i = 0; i < n; i++) bs.push_back(bl(i));
  for (int i = 0; i < k; i++) ps.push_back(p(i));
  vc_cover("start");
  BiLevelLossFn L(bs);
  bool thrown = false;
  try { L.CalculateLoss(ps, 1, 1); } catch (std::exception &e) { thrown = true; }
  vc_check("rejected", thrown);
}
