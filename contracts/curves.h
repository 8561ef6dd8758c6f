// arbitrary curves, as subclasses of the library's own interfaces
#ifndef CURVES_H
#define CURVES_H
#include "functions.h"
#include <memory>
// any real function with values in [lo,hi]
class Curve : public SLAT::DeterministicFn {
  const char *name; double lo, hi;
public:
  Curve(const char *n, double l, double h) : SLAT::DeterministicFn(), name(n), lo(l), hi(h) {}
  double at(double x) const { return vc_fn(name, x, lo, hi); }
  double Evaluate(double x) const { return at(x); }
};
// any function at all: may be undefined (NaN) or infinite
class WildCurve : public SLAT::DeterministicFn {
  const char *name;
public:
  WildCurve(const char *n) : SLAT::DeterministicFn(), name(n) {}
  double at(double x) const { return vc_fn_any(name, x); }
  double Evaluate(double x) const { return at(x); }
};
// any probabilistic relationship: every statistic an arbitrary function of the intensity
class Response : public SLAT::ProbabilisticFn {
  const char *p, *q, *m, *ml, *md, *sl, *s;
public:
  Response(const char *p_, const char *q_, const char *m_, const char *ml_, const char *md_, const char *sl_, const char *s_)
    : SLAT::ProbabilisticFn(std::make_shared<Curve>("unused", 0, 1), std::make_shared<Curve>("unused", 0, 1)), p(p_), q(q_), m(m_), ml(ml_), md(md_), sl(sl_), s(s_) {}
  double P_exceedence(double x, double y) const { return vc_fn2(p, x, y, 0, 1); }
  double X_at_exceedence(double x, double y) const { return vc_fn2(q, x, y, 0, 10); }
  double Mean(double x) const { return vc_fn(m, x, 0, 10); }
  double MeanLn(double x) const { return vc_fn(ml, x, -3, 3); }
  double Median(double x) const { return vc_fn(md, x, 0, 10); }
  double SD_ln(double x) const { return vc_fn(sl, x, 0.05, 2); }
  double SD(double x) const { return vc_fn(s, x, 0, 10); }
};
#define RESPONSE(t) std::make_shared<Response>(t ".p", t ".q", t ".mean", t ".meanln", t ".median", t ".sdln", t ".sd")
#endif
