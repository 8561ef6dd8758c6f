#ifndef VC_MATH
#define VC_MATH
extern "C" {
double exp(double); double log(double); double sqrt(double); double pow(double,double); double fabs(double); double floor(double); double ceil(double);
double log1p(double); double expm1(double); double fmin(double,double); double fmax(double,double); double exp2(double); double log2(double); double log10(double); double cbrt(double); double round(double); double trunc(double); double fma(double,double,double); double hypot(double,double); double erf(double); double erfc(double); double copysign(double,double); double fmod(double,double);
int vc_isnan(double); int vc_isinf(double); int vc_isfin(double); int vc_sgnbit(double);
int abs(int); long labs(long);
}
#undef NAN
#undef INFINITY
#define NAN (__builtin_nanf(""))
#define INFINITY (__builtin_inff())
#define HUGE_VAL (__builtin_huge_val())
#define M_PI 3.14159265358979323846
#define M_SQRT1_2 0.70710678118654752440
#define M_SQRT2 1.41421356237309504880
#define M_E 2.7182818284590452354
namespace std {
inline bool isnan(double x) { return vc_isnan(x); }
inline bool isinf(double x) { return vc_isinf(x); }
inline bool isfinite(double x) { return vc_isfin(x); }
inline bool signbit(double x) { return vc_sgnbit(x); }
using ::exp; using ::log; using ::sqrt; using ::pow; using ::fabs; using ::floor; using ::ceil; using ::log1p; using ::expm1; using ::fmin; using ::fmax; using ::exp2; using ::log2; using ::log10; using ::cbrt; using ::round; using ::trunc; using ::fma; using ::hypot; using ::erf; using ::erfc; using ::copysign; using ::fmod;
using ::abs; using ::labs;
inline double abs(double x) { return ::fabs(x); }
inline float abs(float x) { return (float)::fabs(x); }
inline long abs(long x) { return ::labs(x); }
inline double pow(double x, int n) { return ::pow(x, (double)n); }
}
using std::isnan; using std::isinf; using std::isfinite; using std::abs;
#endif
