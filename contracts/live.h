// live object graphs whose inputs change under them
#ifndef LIVE_H
#define LIVE_H
#include "groups.h"
#include "structure.h"
#ifdef VC_NATIVE
template<class F> inline void remember(F read) { read(); }
#else
extern "C" void vc_remember(void);
// every cache alive is filled, for every argument, with what its function yields now
template<class F> inline void remember(F) { vc_remember(); }
#endif
// inputs that can be turned from one arbitrary function to another
class Dial : public DeterministicFn {
  const char *name; double lo, hi;
public:
  Dial(const char *n, double l, double h) : DeterministicFn(), name(n), lo(l), hi(h) {}
  void turn(const char *n) { name = n; notify_change(); }
  double Evaluate(double x) const { return vc_fn(name, x, lo, hi); }
};
class DialResponse : public ProbabilisticFn {
  const char *p, *q, *m, *s;
public:
  DialResponse(const char *p_, const char *q_, const char *m_, const char *s_)
    : ProbabilisticFn(std::make_shared<Curve>("unused", 0, 1), std::make_shared<Curve>("unused", 0, 1)), p(p_), q(q_), m(m_), s(s_) {}
  void turn(const char *p_, const char *q_, const char *m_, const char *s_) { p = p_; q = q_; m = m_; s = s_; notify_change(); }
  double P_exceedence(double x, double y) const { return vc_fn2(p, x, y, 0, 1); }
  double X_at_exceedence(double x, double y) const { return vc_fn2(q, x, y, 0, 10); }
  double Mean(double x) const { return vc_fn(m, x, 0, 10); }
  double MeanLn(double x) const { return vc_fn(m, x, 0, 10) - 1; }
  double Median(double x) const { return vc_fn(m, x, 0, 10) + 1; }
  double SD_ln(double x) const { return vc_fn(s, x, 0.05, 2); }
  double SD(double x) const { return vc_fn(s, x, 0.05, 2) + 1; }
};
class DialResponseOn : public ProbabilisticFn {
public:
  DialResponseOn(std::shared_ptr<DeterministicFn> m, std::shared_ptr<DeterministicFn> s) : ProbabilisticFn(m, s) {}
  double P_exceedence(double x, double y) const { return 0; }
  double X_at_exceedence(double x, double y) const { return 0; }
  double Mean(double x) const { return mu_function->ValueAt(x); }
  double MeanLn(double x) const { return 0; }
  double Median(double x) const { return 0; }
  double SD_ln(double x) const { return sigma_function->ValueAt(x); }
  double SD(double x) const { return 0; }
};
#define DIAL_RESPONSE(t) std::make_shared<DialResponse>(t ".p", t ".q", t ".m", t ".s")
#define TURN(r, t) (r)->turn(t ".p", t ".q", t ".m", t ".s")
class DialLoss : public LossFn {
  const char *m, *s;
public:
  DialLoss(const char *m_, const char *s_) : m(m_), s(s_) {}
  void turn(const char *m_, const char *s_) { m = m_; s = s_; notify_change(); }
  size_t n_states(void) { return 1; }
  LogNormalDist CalculateUnadjustedLoss(std::vector<double> p, int count) { return dist(vc_fn(m, p[0], -2, 2), vc_fn(s, p[0], 0.05, 1)); }
};
inline std::shared_ptr<FragilityFn> frag(const char *mu, const char *s) {
  std::vector<LogNormalDist> ds; ds.push_back(dist(vc_real_in(mu, -2, 2), vc_real_in(s, 0.05, 2)));
  return std::make_shared<FragilityFn>(ds);
}
#define FRAG(t) frag(t ".mu", t ".sd")
#define LOSS(t) std::make_shared<DialLoss>(t ".lm", t ".ls")
struct Heard {
  int changed, replaced; Heard() : changed(0), replaced(0) {}
  template<class T> int on(std::shared_ptr<T> t) { return t->add_callbacks([this]() { changed++; }, [this](std::shared_ptr<T>) { replaced++; }); }
};
#endif
