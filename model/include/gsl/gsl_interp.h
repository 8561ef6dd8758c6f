#include "gsl_all.h"
