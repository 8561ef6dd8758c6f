// Model library, common part.  Only declarations interpreted by slatvc.
#ifndef VC_BASE_H
#define VC_BASE_H
#include <stddef.h>
#include <stdint.h>
#include <initializer_list>
#include <type_traits>
#include <bits/move.h>
#include <bits/stl_pair.h>
#include <bits/stl_iterator_base_types.h>
#include <bits/stl_iterator_base_funcs.h>
#include "new"
#include "math.h"
extern "C" {
void *vc_buf(size_t elemsize);               // fresh growable array object, stride elemsize
void *vc_buf_for(size_t elemsize, int tag);
long vc_str_lit(const char *s);
long vc_str_cat(long a, long b);
long vc_str_num(double d);
long vc_str_fresh(void);
}
#endif
