#ifndef SIM_MERCURY_PROC_H
#define SIM_MERCURY_PROC_H
#include "mercury.h"
hg_proc_op_t hg_proc_get_op(hg_proc_t);
hg_return_t hg_proc_memcpy(hg_proc_t, void *, hg_size_t);
#define hg_proc_raw(p, d, n) hg_proc_memcpy(p, d, n)
static inline hg_return_t hg_proc_int8_t(hg_proc_t p, void *d)   { return hg_proc_memcpy(p, d, 1); }
static inline hg_return_t hg_proc_uint8_t(hg_proc_t p, void *d)  { return hg_proc_memcpy(p, d, 1); }
static inline hg_return_t hg_proc_int16_t(hg_proc_t p, void *d)  { return hg_proc_memcpy(p, d, 2); }
static inline hg_return_t hg_proc_uint16_t(hg_proc_t p, void *d) { return hg_proc_memcpy(p, d, 2); }
static inline hg_return_t hg_proc_int32_t(hg_proc_t p, void *d)  { return hg_proc_memcpy(p, d, 4); }
static inline hg_return_t hg_proc_uint32_t(hg_proc_t p, void *d) { return hg_proc_memcpy(p, d, 4); }
static inline hg_return_t hg_proc_int64_t(hg_proc_t p, void *d)  { return hg_proc_memcpy(p, d, 8); }
static inline hg_return_t hg_proc_uint64_t(hg_proc_t p, void *d) { return hg_proc_memcpy(p, d, 8); }
#define hg_proc_hg_int8_t hg_proc_int8_t
#define hg_proc_hg_uint8_t hg_proc_uint8_t
#define hg_proc_hg_int32_t hg_proc_int32_t
#define hg_proc_hg_uint32_t hg_proc_uint32_t
#define hg_proc_hg_int64_t hg_proc_int64_t
#define hg_proc_hg_uint64_t hg_proc_uint64_t
#define hg_proc_hg_size_t hg_proc_uint64_t
#define hg_proc_hg_bool_t hg_proc_uint8_t
#define hg_proc_hg_id_t hg_proc_uint64_t
hg_return_t hg_proc_hg_bulk_t(hg_proc_t, void *);
#endif
