// Harness vocabulary, shared by the deductive run (clang -> slatvc) and the native replay (g++).
#ifndef VC_H
#define VC_H
#ifdef VC_NATIVE
#include <math.h>
#endif
extern "C" {
double vc_real(const char *name);                                        // any finite value
double vc_real_in(const char *name, double lo, double hi);               // finite, lo <= v <= hi
double vc_any(const char *name);                                         // any double, NaN and infinities included
int vc_int(const char *name, int lo, int hi);
int vc_index(const char *name, int n);                                   // arbitrary 0 <= i < n
bool vc_bool(const char *name);
double vc_elem(const char *name, int i, double lo, double hi);           // i-th element of an arbitrary sequence
double vc_elem2(const char *name, int i, int j, double lo, double hi);
int vc_elem_int(const char *name, int i, int lo, int hi);
void vc_increasing(const char *name);                                    // vc_elem(name, .) strictly increasing
void vc_simplex(const char *name, int n);                           // vc_elem(name, 0..n-1) are >= 0 and add up to one
double vc_fn(const char *name, double x, double lo, double hi);          // arbitrary real function
double vc_fn2(const char *name, double x, double y, double lo, double hi);
double vc_fn_any(const char *name, double x);                            // arbitrary function, may return NaN / inf
void vc_assume(bool c);
void vc_check(const char *id, bool c);
void vc_check_eq(const char *id, double a, double b);
void vc_check_int(const char *id, double a, double b);                   // values obtained by quadrature
void vc_cover(const char *id);
void vc_note(const char *text);
}
#define VC_INF __builtin_inf()
#define VC_HARNESS(p, n) extern "C" void vch_##p##_##n(void)
#endif
