// the slope of a curve as the library defines it: derivative by differences, one-sided where the
// two-sided one is undefined; and the standard lognormal probability
#ifndef HAZARD_H
#define HAZARD_H
#include "vc.h"
#include "curves.h"
#include "maq.h"
#include <gsl/gsl_deriv.h>
#include <gsl/gsl_cdf.h>
#include <cmath>
#include <functional>
inline double call_fn(double x, void *p) { return (*(std::function<double(double)> *)p)(x); }
inline double slope(std::function<double(double)> g, double x) {
  gsl_function F; F.function = call_fn; F.params = &g;
  double r, e;
  gsl_deriv_central(&F, x, 1e-8, &r, &e);
  if (std::isnan(r)) gsl_deriv_forward(&F, x, 1e-8, &r, &e);
  if (std::isnan(r)) gsl_deriv_backward(&F, x, 1e-8, &r, &e);
  return r;
}
inline double lnp(double mu, double s, double x) { return gsl_cdf_lognormal_P(x, mu, s); }
inline double integral_or(double undefined, std::function<double(double)> g) {
  SLAT::Integration::MAQ_RESULT r = SLAT::Integration::MAQ(g);
  return r.successful ? r.integral : undefined;
}
#endif
