#ifndef VC_GSL
#define VC_GSL
#include "vc_base.h"
extern "C" {
double gsl_cdf_lognormal_P(double,double,double); double gsl_cdf_lognormal_Q(double,double,double);
double gsl_cdf_lognormal_Pinv(double,double,double); double gsl_cdf_lognormal_Qinv(double,double,double);
double gsl_cdf_ugaussian_P(double); double gsl_cdf_ugaussian_Q(double); double gsl_cdf_ugaussian_Pinv(double); double gsl_cdf_ugaussian_Qinv(double);
double gsl_cdf_gaussian_P(double,double); double gsl_cdf_gaussian_Q(double,double);
typedef struct { double (*function)(double, void*); void *params; } gsl_function;
int gsl_deriv_central(const gsl_function*, double x, double h, double*, double*);
int gsl_deriv_forward(const gsl_function*, double x, double h, double*, double*);
int gsl_deriv_backward(const gsl_function*, double x, double h, double*, double*);
typedef struct { int kind; } gsl_interp_type; typedef struct { int d; } gsl_interp_accel; typedef struct { int d; } gsl_spline;
extern const gsl_interp_type *gsl_interp_linear; extern const gsl_interp_type *gsl_interp_cspline; extern const gsl_interp_type *gsl_interp_akima;
gsl_interp_accel *gsl_interp_accel_alloc(void); void gsl_interp_accel_free(gsl_interp_accel*);
gsl_spline *gsl_spline_alloc(const gsl_interp_type*, size_t); int gsl_spline_init(gsl_spline*, const double*, const double*, size_t);
void gsl_spline_free(gsl_spline*); int gsl_spline_eval_e(const gsl_spline*, double, gsl_interp_accel*, double*); double gsl_spline_eval(const gsl_spline*, double, gsl_interp_accel*);
int gsl_isnan(double); void *gsl_set_error_handler_off(void);
}
#define GSL_NAN (__builtin_nan(""))
#endif
