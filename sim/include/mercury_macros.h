#ifndef SIM_MERCURY_MACROS_H
#define SIM_MERCURY_MACROS_H
#include "mercury.h"
#include "mercury_proc.h"
#define hg_proc_void NULL
#define MERCURY_REGISTER(cls, name, in, out, cb) \
    HG_Register_name(cls, name, (hg_proc_cb_t)hg_proc_##in, (hg_proc_cb_t)hg_proc_##out, cb)
#endif
