// C06: hazard and response curves follow their formulas on the whole axis.
#include "vc.h"
#include "functions.h"
#include <vector>
#include <cmath>
using namespace SLAT;

VC_HARNESS(C06, power) {
  double a = vc_real("a"), b = vc_real_in("b", -20, 20), x = vc_real_in("x", 0, 1e9);
  vc_assume(x > 0);
  vc_cover("start");
  PowerLawParametricCurve f(a, b);
  vc_check_eq("value", f.ValueAt(x), a * pow(x, b));
}
VC_HARNESS(C06, power_at_zero) {
  double a = vc_real("a"), b = vc_real_in("b", 0, 20);
  vc_assume(b > 0);
  vc_cover("start");
  PowerLawParametricCurve f(a, b);
  vc_check_eq("value", f.ValueAt(0), 0);
}
VC_HARNESS(C06, hyperbolic) {
  double v = vc_real("v_asy"), im = vc_real_in("IM_asy", 0, 1e6), al = vc_real_in("alpha", 0, 1e4), x = vc_real_in("x", 0, 1e7);
  vc_assume(im > 0); vc_assume(x > 0); vc_assume(x < im);
  vc_cover("start");
  NonLinearHyperbolicLaw f(v, im, al);
  vc_check_eq("value", f.ValueAt(x), v * ::exp(al / ::log(x / im)));
}
VC_HARNESS(C06, hyperbolic_beyond) {
  double v = vc_real("v_asy"), im = vc_real_in("IM_asy", 0, 1e6), al = vc_real_in("alpha", 0, 1e4), x = vc_any("x");
  vc_assume(im > 0); vc_assume(x >= im);
  vc_cover("start");
  NonLinearHyperbolicLaw f(v, im, al);
  vc_check_eq("zero", f.ValueAt(x), 0);
}
VC_HARNESS(C06, hyperbolic_at_zero) {
  double v = vc_real("v_asy"), im = vc_real_in("IM_asy", 0, 1e6), al = vc_real_in("alpha", 0, 1e4);
  vc_assume(im > 0);
  vc_cover("start");
  NonLinearHyperbolicLaw f(v, im, al);
  vc_check_eq("limit", f.ValueAt(0), v);
}
// tables of any length >= 2 with increasing abscissae
struct Table { std::vector<double> x, y; };
static void lin(Table &t, int n) {
  for (int i = 0; i < n; i++) { t.x.push_back(vc_elem("X", i, -1e6, 1e6)); t.y.push_back(vc_elem("Y", i, -1e6, 1e6)); }
}
VC_HARNESS(C06, linear_inside) {
  int n = vc_int("n", 2, 1 << 30);
  Table t; vc_increasing("X"); lin(t, n);
  int i = vc_index("i", n - 1);
  double u = vc_real_in("u", 0, 1);
  LinearInterpolatedFn f(&t.x[0], &t.y[0], n);
  double x0 = vc_elem("X", i, -1e6, 1e6), x1 = vc_elem("X", i + 1, -1e6, 1e6), y0 = vc_elem("Y", i, -1e6, 1e6), y1 = vc_elem("Y", i + 1, -1e6, 1e6);
  double x = x0 + u * (x1 - x0);
  vc_cover("start");
  vc_check_eq("value", f.ValueAt(x), y0 + u * (y1 - y0));
}
VC_HARNESS(C06, linear_points) {
  int n = vc_int("n", 2, 1 << 30);
  Table t; vc_increasing("X"); lin(t, n);
  int i = vc_index("i", n);
  LinearInterpolatedFn f(&t.x[0], &t.y[0], n);
  vc_cover("start");
  vc_check_eq("value", f.ValueAt(vc_elem("X", i, -1e6, 1e6)), vc_elem("Y", i, -1e6, 1e6));
}
VC_HARNESS(C06, linear_outside) {
  int n = vc_int("n", 2, 1 << 30);
  Table t; vc_increasing("X"); lin(t, n);
  double a = vc_any("a"), b = vc_any("b");
  LinearInterpolatedFn f(&t.x[0], &t.y[0], n);
  vc_assume(a < vc_elem("X", 0, -1e6, 1e6)); vc_assume(b > vc_elem("X", n - 1, -1e6, 1e6));
  vc_cover("start");
  vc_check_eq("below", f.ValueAt(a), vc_elem("Y", 0, -1e6, 1e6));
  vc_check_eq("above", f.ValueAt(b), vc_elem("Y", n - 1, -1e6, 1e6));
}
static void llog(Table &t, int n) {
  for (int i = 0; i < n; i++) { t.x.push_back(::exp(vc_elem("LX", i, -20, 20))); t.y.push_back(::exp(vc_elem("LY", i, -20, 20))); }
}
VC_HARNESS(C06, loglog_inside) {
  int n = vc_int("n", 2, 1 << 30);
  Table t; vc_increasing("LX"); llog(t, n);
  int i = vc_index("i", n - 1);
  double u = vc_real_in("u", 0, 1);
  LogLogInterpolatedFn f(&t.x[0], &t.y[0], n);
  double x0 = vc_elem("LX", i, -20, 20), x1 = vc_elem("LX", i + 1, -20, 20), y0 = vc_elem("LY", i, -20, 20), y1 = vc_elem("LY", i + 1, -20, 20);
  double x = ::exp(x0 + u * (x1 - x0));
  vc_cover("start");
  vc_check_eq("value", f.ValueAt(x), ::exp(y0 + u * (y1 - y0)));
}
VC_HARNESS(C06, loglog_points) {
  int n = vc_int("n", 2, 1 << 30);
  Table t; vc_increasing("LX"); llog(t, n);
  int i = vc_index("i", n);
  LogLogInterpolatedFn f(&t.x[0], &t.y[0], n);
  vc_cover("start");
  vc_check_eq("value", f.ValueAt(::exp(vc_elem("LX", i, -20, 20))), ::exp(vc_elem("LY", i, -20, 20)));
}
VC_HARNESS(C06, loglog_outside) {
  int n = vc_int("n", 2, 1 << 30);
  Table t; vc_increasing("LX"); llog(t, n);
  double a = vc_real_in("a", 0, 1e9), b = vc_any("b");
  LogLogInterpolatedFn f(&t.x[0], &t.y[0], n);
  vc_assume(a < ::exp(vc_elem("LX", 0, -20, 20))); vc_assume(b > ::exp(vc_elem("LX", n - 1, -20, 20)));
  vc_cover("start");
  vc_check_eq("below", f.ValueAt(a), ::exp(vc_elem("LY", 0, -20, 20)));
  vc_check_eq("above", f.ValueAt(b), ::exp(vc_elem("LY", n - 1, -20, 20)));
}
