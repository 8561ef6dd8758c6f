// an arbitrary integrand that keeps a record of where it was evaluated
#ifndef PROBE_H
#define PROBE_H
#include "vc.h"
#include "maq.h"
#include <cmath>
using SLAT::Integration::MAQ;
using SLAT::Integration::MAQ_RESULT;
using SLAT::Integration::IntegrationStats;
using SLAT::Integration::get_statistics;
typedef SLAT::Integration::IntegrationSettings Settings;
static const double ROUNDING = 2.220446049250313e-16;     // "rounding level": the spacing of doubles at one
#ifdef VC_NATIVE
// the proof covers every integrand; the native run looks for the awkward ones
static double arbitrary(double x) {
  int shape = vc_int("shape", 0, 8);
  double t = 1 / (1 + x), at = vc_real_in("at", 0, 1), w = vc_real_in("width", 0, 1); w = w * w * w;
  double h = vc_real_in("height", -2, 4);
  switch (shape) {
  case 0: return 0;
  case 1: return fabs(t - at) < w ? h : 0;
  case 2: return fabs(t - at) < w ? 1e-17 * h : fabs(t - at) < 0.1 * w ? 1 : 0;
  case 3: return t < at ? h : -h;
  case 4: return fabs(t - at) < w ? NAN : h * t * t;
  case 5: return fabs(t - at) < w ? h : 1e-18;
  case 6: return h * t * t * exp(-t);
  case 7: {                                   // on in some of 64 cells, near or below rounding level
    unsigned r = vc_int("cells", 0, 1 << 30) + 7919u * (unsigned)(int)(t * 64);
    for (int i = 0; i < 3; i++) r = r * 1664525u + 1013904223u;
    return r >> 28 < 3 ? 1e-16 * fabs(h) * (1 + t) : 0;
  }
  default: return vc_fn_any("f", x);
  }
}
#else
static double arbitrary(double x) { return vc_fn_any("f", x); }
#endif
// the axis 0..1 the searches work on: 1 at x=0, 0 at infinity
static double axis(double x) { return 1 / (1 + x); }
struct Record {
  int calls;                       // evaluations so far
  double t1, t2, t3;               // the last three points on that axis, newest first
  bool seen; double where;         // first point with a value above rounding level
  bool zero, zero1, zero2, zero3;  // nothing but zeros so far; before the last one, two, three points
  bool undef;                      // some value was undefined
  Record() : calls(0), t1(0), t2(0), t3(0), seen(false), where(0), zero(true), zero1(true), zero2(true), zero3(true), undef(false) {}
  double note(double x, double v) {
    double t = axis(x);
    calls++; t3 = t2; t2 = t1; t1 = t;
    zero3 = zero2; zero2 = zero1; zero1 = zero;
    if (!(v == 0)) zero = false;
    if (v != v) undef = true;
    if (!seen && v > ROUNDING) { seen = true; where = t; }
    return v;
  }
};
#endif
