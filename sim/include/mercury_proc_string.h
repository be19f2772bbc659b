#ifndef SIM_MERCURY_PROC_STRING_H
#define SIM_MERCURY_PROC_STRING_H
#include "mercury_proc.h"
typedef const char *hg_const_string_t;
typedef char *hg_string_t;
hg_return_t hg_proc_hg_const_string_t(hg_proc_t, void *);
hg_return_t hg_proc_hg_string_t(hg_proc_t, void *);
#endif
