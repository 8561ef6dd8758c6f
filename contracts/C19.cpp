// C19: integration settings.
#include "vc.h"
#include "maq.h"
#include <cmath>
typedef SLAT::Integration::IntegrationSettings S;
struct All { double tol; unsigned ev, se; S::METHOD_TYPE m; };
static All now() { All a; a.tol = S::Get_Tolerance(); a.ev = S::Get_Integration_Eval_Limit(); a.se = S::Get_Integration_Search_Limit(); a.m = S::Get_Integration_Method(); return a; }
static void same(All a, All b) {
  vc_check("tolerance", a.tol == b.tol); vc_check("eval-limit", a.ev == b.ev); vc_check("search-limit", a.se == b.se); vc_check("method", a.m == b.m);
}
// any settings that can be reached: accepted values of all four, in the order of any history's last acceptances
static S::METHOD_TYPE method(const char *n) { return (S::METHOD_TYPE)vc_int(n, 0, 4); }
static All reach() {
  All a; a.tol = vc_real_in("tol", 1e-12, 10); a.ev = vc_int("ev", 1, 1 << 30); a.se = vc_int("se", 1, 1 << 30); a.m = method("m");
  S::Set_Tolerance(a.tol); S::Set_Integration_Eval_Limit(a.ev); S::Set_Integration_Search_Limit(a.se); S::Set_Integration_Method(a.m);
  return a;
}
static All initial() { All a; a.tol = 1e-3; a.ev = 2048; a.se = 2048; a.m = S::DIRECTED; return a; }
VC_HARNESS(C19, initially) { vc_cover("start"); same(now(), initial()); }
VC_HARNESS(C19, read_back) { All a = reach(); vc_cover("start"); same(now(), a); same(now(), a); }
VC_HARNESS(C19, tolerance) {
  All a = reach(); double t = vc_any("t");
  vc_cover("start");
  S::Set_Tolerance(t);
  if (t > 0) a.tol = t;                  // zero, negative and undefined tolerances are refused
  same(now(), a);
}
VC_HARNESS(C19, eval_limit) {
  All a = reach(); unsigned n = vc_int("n", 0, 1 << 30);
  vc_cover("start");
  S::Set_Integration_Eval_Limit(n);
  if (n > 0) a.ev = n;
  same(now(), a);
}
VC_HARNESS(C19, search_limit) {
  All a = reach(); unsigned n = vc_int("n", 0, 1 << 30);
  vc_cover("start");
  S::Set_Integration_Search_Limit(n);
  if (n > 0) a.se = n;
  same(now(), a);
}
VC_HARNESS(C19, method) {
  All a = reach(); S::METHOD_TYPE m = method("n");
  vc_cover("start");
  S::Set_Integration_Method(m);
  a.m = m;
  same(now(), a);
}
VC_HARNESS(C19, default_tolerance) { All a = reach(); vc_cover("start"); S::Use_Default_Tolerance(); a.tol = initial().tol; same(now(), a); }
VC_HARNESS(C19, default_eval_limit) { All a = reach(); vc_cover("start"); S::Use_Default_Integration_Eval_Limit(); a.ev = initial().ev; same(now(), a); }
VC_HARNESS(C19, default_search_limit) { All a = reach(); vc_cover("start"); S::Use_Default_Integration_Search_Limit(); a.se = initial().se; same(now(), a); }
VC_HARNESS(C19, default_method) { All a = reach(); vc_cover("start"); S::Use_Default_Method(); a.m = initial().m; same(now(), a); }
VC_HARNESS(C19, reset) { reach(); vc_cover("start"); S::Reset(); same(now(), initial()); }
