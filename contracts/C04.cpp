// C04: fragility functions accept only ordered states and split probability.
#include "vc.h"
#include "fragility.h"
#include <stdexcept>
using namespace SLAT;
static LogNormalDist mk(int i) {
  return LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(vc_elem("mu", i, -20, 20), vc_elem("s", i, 0.01, 4));
}
static std::vector<LogNormalDist> states(int n) {
  std::vector<LogNormalDist> ds;
  for (int i = 0; i < n; i++) ds.push_back(mk(i));
  return ds;
}
// strictly increasing medians are accepted and kept in order
VC_HARNESS(C04, accepted) {
  int n = vc_int("n", 1, 1 << 30);
  vc_increasing("mu");
  std::vector<LogNormalDist> ds = states(n);
  vc_cover("start");
  FragilityFn f(ds);
  vc_check("n", (int)f.n_states() == n);
  std::vector<LogNormalDist> got = f.DamageStates();
  vc_check("size", (int)got.size() == n);
  int i = vc_index("i", n);
  vc_check_eq("mu", got[i].get_mu_lnX(), vc_elem("mu", i, -20, 20));
  vc_check_eq("s", got[i].get_sigma_lnX(), vc_elem("s", i, 0.01, 4));
}
static bool rejected(const std::vector<LogNormalDist> &ds) {
  try { FragilityFn f(ds); } catch (std::exception &e) { return true; }
  return false;
}
VC_HARNESS(C04, rejects_empty) {
  std::vector<LogNormalDist> ds;
  vc_cover("start");
  vc_check("rejected", rejected(ds));
}
// one adjacent pair that does not increase, anywhere in a list of any length
VC_HARNESS(C04, rejects_unordered) {
  int n = vc_int("n", 2, 1 << 30);
  int j = vc_index("j", n - 1);
  vc_assume(vc_elem("mu", j + 1, -20, 20) <= vc_elem("mu", j, -20, 20));
  std::vector<LogNormalDist> ds = states(n);
  vc_cover("start");
  vc_check("rejected", rejected(ds));
}
// an undefined median is not ordered
VC_HARNESS(C04, rejects_undefined) {
  int n = vc_int("n", 1, 1 << 30);
  int j = vc_index("j", n);
  vc_increasing("mu");
  std::vector<LogNormalDist> ds;
  for (int i = 0; i < n; i++) { if (i == j) ds.push_back(LogNormalDist()); else ds.push_back(mk(i)); }
  vc_cover("start");
  vc_check("rejected", rejected(ds));
}
VC_HARNESS(C04, probabilities) {
  int n = vc_int("n", 1, 1 << 30);
  vc_increasing("mu");
  double x = vc_real_in("x", 0, 1e9);
  vc_assume(x > 0);
  std::vector<LogNormalDist> ds = states(n);
  FragilityFn f(ds);
  std::vector<double> pe = f.pExceeded(x), ph = f.pHighest(x);
  vc_cover("start");
  vc_check("sizes", (int)pe.size() == n && (int)ph.size() == n);
  int i = vc_index("i", n);
  double own = mk(i).p_at_most(x);
  vc_check_eq("exceeded", pe[i], own);
  double next = i + 1 < n ? mk(i + 1).p_at_most(x) : 0;
  vc_check_eq("highest", ph[i], i + 1 < n ? (own - next > 0 ? own - next : 0) : own);
  vc_check("highest>=0", ph[i] >= 0);
}
