#include "boost/vc_boost.h"
