// component groups over arbitrary hazard, response and loss functions
#ifndef GROUPS_H
#define GROUPS_H
#include "hazard.h"
#include "comp_group.h"
using namespace SLAT;
typedef std::function<double(double)> Fn;
inline LogNormalDist dist(double mu, double s) { return LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(mu, s); }
// an arbitrary loss function of two damage states
class AnyLoss : public LossFn {
  const char *m, *s;
public:
  AnyLoss(const char *m_, const char *s_) : m(m_), s(s_) {}
  size_t n_states(void) { return 2; }
  LogNormalDist CalculateUnadjustedLoss(std::vector<double> p, int count) {
    if (p.size() != 2) return LogNormalDist();
    return dist(vc_fn2(m, p[0], p[1], -2, 2) + ::log(double(count)), vc_fn2(s, p[0], p[1], 0.05, 1));
  }
};
// the same with one damage state
class AnyLoss1 : public LossFn {
  const char *m, *s;
public:
  AnyLoss1(const char *m_, const char *s_) : m(m_), s(s_) {}
  size_t n_states(void) { return 1; }
  LogNormalDist CalculateUnadjustedLoss(std::vector<double> p, int count) { return dist(vc_fn(m, p[0], -2, 2), vc_fn(s, p[0], 0.05, 1)); }
};
// probability density of the demand at intensity x
inline double density(std::shared_ptr<ProbabilisticFn> r, double im, double y) {
  return std::fabs(slope([r, im](double v) { return r->P_exceedence(im, v); }, y));
}
struct Group {
  std::shared_ptr<Curve> h; std::shared_ptr<IM> im; std::shared_ptr<ProbabilisticFn> r; std::shared_ptr<EDP> edp; std::shared_ptr<FragilityFn> frag;
  std::shared_ptr<LossFn> cost, delay;
  double m0, s0, m1, s1, fc, fd; int count;
  std::shared_ptr<CompGroup> cg;
  Group(int n, bool hascost = true, bool hasdelay = true) : count(n) {
    h = std::make_shared<Curve>("h", 0, 10); im = std::make_shared<IM>(h); r = RESPONSE("r"); edp = std::make_shared<EDP>(im, r);
    m0 = vc_real_in("m0", -2, 2); s0 = vc_real_in("s0", 0.05, 2); m1 = vc_real_in("m1", -2, 2); s1 = vc_real_in("s1", 0.05, 2);
    vc_assume(m0 < m1);
    std::vector<LogNormalDist> ds; ds.push_back(dist(m0, s0)); ds.push_back(dist(m1, s1));
    frag = std::make_shared<FragilityFn>(ds);
    if (hascost) cost = std::make_shared<AnyLoss>("cm", "cs");
    if (hasdelay) delay = std::make_shared<AnyLoss>("dm", "ds");
    fc = vc_real_in("fc", 0, 10); fd = vc_real_in("fd", 0, 10);
    cg = std::make_shared<CompGroup>(edp, frag, cost, delay, count, fc, fd);
  }
  LogNormalDist loss(std::shared_ptr<LossFn> fn, double f, double y) const {
    double a = lnp(m0, s0, y), b = lnp(m1, s1, y), d = a - b;
    std::vector<double> p; p.push_back(d < 0 ? 0 : d); p.push_back(b);
    LogNormalDist u = fn->CalculateUnadjustedLoss(p, count);
    return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(f * u.get_mean_X(), u.get_sigma_lnX());
  }
  LogNormalDist cost_at(double y) const { return loss(cost, fc, y); }
  LogNormalDist delay_at(double y) const { return loss(delay, fd, y); }
  double slope_at(double x) const { std::shared_ptr<Curve> c = h; return std::fabs(slope([c](double v) { return c->at(v); }, x)); }
};
typedef std::shared_ptr<Group> G;
#define COUNT vc_int("count", 1, 1000)
// mean, and logarithmic SD from the second moment
inline double mean_of(G g, bool cost, double im) {
  if (g->count <= 0) return 0;
  return integral_or(0, [=](double y) -> double { if (y == 0) return 0; return (cost ? g->cost_at(y) : g->delay_at(y)).get_mean_X() * density(g->r, im, y); });
}
inline double sd_ln_of(G g, bool cost, double im, double divisor = 1) {
  if (g->count <= 0) return 0;
  SLAT::Integration::MAQ_RESULT q = SLAT::Integration::MAQ([=](double y) -> double {
    if (y == 0) return 0;
    LogNormalDist d = cost ? g->cost_at(y) : g->delay_at(y);
    double e = d.get_mean_X() / divisor;
    return (e * e + d.get_sigma_X() * d.get_sigma_X()) * density(g->r, im, y); });
  if (!q.successful) return 0;
  double m = mean_of(g, cost, im) / divisor, var = q.integral - m * m;
  if (m == 0 || !(var > 0)) return 0;
  return sqrt(::log(1 + var / (m * m)));
}
#endif
