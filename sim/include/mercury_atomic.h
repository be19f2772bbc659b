#ifndef SIM_MERCURY_ATOMIC_H
#define SIM_MERCURY_ATOMIC_H
#include "mercury.h"
typedef int32_t hg_atomic_int32_t;
#define HG_ATOMIC_VAR_INIT(x) (x)
static inline void hg_atomic_init32(hg_atomic_int32_t *p, int32_t v) { *p = v; }
static inline void hg_atomic_set32(hg_atomic_int32_t *p, int32_t v) { *p = v; }
static inline int32_t hg_atomic_get32(hg_atomic_int32_t *p) { return *p; }
static inline int32_t hg_atomic_incr32(hg_atomic_int32_t *p) { return ++*p; }
static inline int32_t hg_atomic_decr32(hg_atomic_int32_t *p) { return --*p; }
static inline int hg_atomic_cas32(hg_atomic_int32_t *p, int32_t c, int32_t s) { if (*p == c) { *p = s; return 1; } return 0; }
#endif
