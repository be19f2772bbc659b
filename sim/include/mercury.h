/* Simulated Mercury: the API surface PDC uses, implemented in-process by sim.c. */
#ifndef SIM_MERCURY_H
#define SIM_MERCURY_H
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include "mercury_config.h"
typedef int8_t hg_int8_t; typedef int16_t hg_int16_t; typedef int32_t hg_int32_t; typedef int64_t hg_int64_t;
typedef uint8_t hg_uint8_t; typedef uint16_t hg_uint16_t; typedef uint32_t hg_uint32_t; typedef uint64_t hg_uint64_t;
typedef uint8_t hg_bool_t;
#define HG_TRUE 1
#define HG_FALSE 0
#define NA_TRUE 1
#define NA_FALSE 0
typedef uint64_t hg_size_t;
typedef uint64_t hg_id_t;
typedef struct hg_class   hg_class_t;
typedef struct hg_context hg_context_t;
typedef struct hg_addr   *hg_addr_t;
typedef struct hg_handle *hg_handle_t;
typedef struct hg_bulk   *hg_bulk_t;
typedef struct hg_op_id  *hg_op_id_t;
typedef struct hg_proc   *hg_proc_t;
#define HG_ADDR_NULL   ((hg_addr_t)0)
#define HG_HANDLE_NULL ((hg_handle_t)0)
#define HG_BULK_NULL   ((hg_bulk_t)0)
#define HG_OP_ID_IGNORE ((hg_op_id_t *)1)
#define HG_MAX_IDLE_TIME 3600000
typedef enum {
    HG_SUCCESS = 0, HG_PERMISSION, HG_NOENTRY, HG_INTERRUPT, HG_AGAIN, HG_NOMEM, HG_ACCESS, HG_FAULT, HG_BUSY,
    HG_EXIST, HG_NODEV, HG_INVALID_ARG, HG_PROTOCOL_ERROR, HG_OVERFLOW, HG_MSGSIZE, HG_PROTONOSUPPORT,
    HG_OPNOTSUPPORTED, HG_ADDRINUSE, HG_ADDRNOTAVAIL, HG_HOSTUNREACH, HG_TIMEOUT, HG_CANCELED, HG_CHECKSUM_ERROR,
    HG_NA_ERROR, HG_OTHER_ERROR, HG_RETURN_MAX
} hg_return_t;
#define HG_NOMEM_ERROR HG_NOMEM
#define HG_UTIL_SUCCESS 0
#define HG_UTIL_FAIL -1
typedef enum { HG_CB_LOOKUP, HG_CB_FORWARD, HG_CB_RESPOND, HG_CB_BULK } hg_cb_type_t;
typedef enum { HG_BULK_PUSH, HG_BULK_PULL } hg_bulk_op_t;
#define HG_BULK_READ_ONLY  (1 << 0)
#define HG_BULK_WRITE_ONLY (1 << 1)
#define HG_BULK_READWRITE  (HG_BULK_READ_ONLY | HG_BULK_WRITE_ONLY)
typedef enum { HG_ENCODE, HG_DECODE, HG_FREE } hg_proc_op_t;
struct hg_info { hg_class_t *hg_class; hg_context_t *context; hg_addr_t addr; hg_id_t id; hg_uint8_t context_id; };
struct hg_cb_info_lookup  { hg_addr_t addr; };
struct hg_cb_info_forward { hg_handle_t handle; };
struct hg_cb_info_respond { hg_handle_t handle; };
struct hg_cb_info_bulk    { hg_bulk_t origin_handle; hg_bulk_t local_handle; hg_bulk_op_t op; hg_size_t size; };
struct hg_cb_info {
    union { struct hg_cb_info_lookup lookup; struct hg_cb_info_forward forward;
            struct hg_cb_info_respond respond; struct hg_cb_info_bulk bulk; } info;
    void *arg; hg_cb_type_t type; hg_return_t ret;
};
typedef hg_return_t (*hg_rpc_cb_t)(hg_handle_t handle);
typedef hg_return_t (*hg_cb_t)(const struct hg_cb_info *);
typedef hg_return_t (*hg_proc_cb_t)(hg_proc_t proc, void *data);
#define NA_NO_BLOCK 1
struct na_init_info { const char *ip_subnet; const char *auth_key; size_t max_unexpected_size; uint8_t progress_mode; uint8_t max_contexts; };
struct hg_init_info { struct na_init_info na_init_info; void *na_class; hg_bool_t auto_sm; hg_bool_t stats; };

hg_return_t HG_Version_get(unsigned *major, unsigned *minor, unsigned *patch);
hg_class_t *HG_Init(const char *info, hg_bool_t listen);
hg_class_t *HG_Init_opt(const char *info, hg_bool_t listen, const struct hg_init_info *opt);
hg_return_t HG_Finalize(hg_class_t *);
void        HG_Cleanup(void);
hg_context_t *HG_Context_create(hg_class_t *);
hg_return_t HG_Context_destroy(hg_context_t *);
hg_class_t *HG_Context_get_class(const hg_context_t *);
hg_return_t HG_Class_set_handle_create_callback(hg_class_t *, hg_return_t (*cb)(hg_handle_t, void *), void *);
hg_id_t HG_Register_name(hg_class_t *, const char *, hg_proc_cb_t in, hg_proc_cb_t out, hg_rpc_cb_t cb);
hg_return_t HG_Registered_disable_response(hg_class_t *, hg_id_t, hg_bool_t);
hg_return_t HG_Addr_lookup(hg_context_t *, hg_cb_t, void *, const char *, hg_op_id_t *);
hg_return_t HG_Addr_free(hg_class_t *, hg_addr_t);
hg_return_t HG_Addr_self(hg_class_t *, hg_addr_t *);
hg_return_t HG_Addr_dup(hg_class_t *, hg_addr_t, hg_addr_t *);
hg_return_t HG_Addr_to_string(hg_class_t *, char *buf, hg_size_t *sz, hg_addr_t);
hg_return_t HG_Create(hg_context_t *, hg_addr_t, hg_id_t, hg_handle_t *);
hg_return_t HG_Destroy(hg_handle_t);
const struct hg_info *HG_Get_info(hg_handle_t);
hg_return_t HG_Forward(hg_handle_t, hg_cb_t, void *arg, void *in);
hg_return_t HG_Respond(hg_handle_t, hg_cb_t, void *arg, void *out);
hg_return_t HG_Get_input(hg_handle_t, void *);
hg_return_t HG_Free_input(hg_handle_t, void *);
hg_return_t HG_Get_output(hg_handle_t, void *);
hg_return_t HG_Free_output(hg_handle_t, void *);
hg_return_t HG_Set_data(hg_handle_t, void *, void (*)(void *));
void       *HG_Get_data(hg_handle_t);
hg_return_t HG_Progress(hg_context_t *, unsigned timeout);
hg_return_t HG_Trigger(hg_context_t *, unsigned timeout, unsigned max, unsigned *actual);
hg_return_t HG_Bulk_create(hg_class_t *, hg_uint32_t count, void **bufs, const hg_size_t *sizes, hg_uint8_t flags, hg_bulk_t *);
hg_return_t HG_Bulk_free(hg_bulk_t);
hg_return_t HG_Bulk_ref_incr(hg_bulk_t);
hg_return_t HG_Bulk_access(hg_bulk_t, hg_size_t off, hg_size_t size, hg_uint8_t flags, hg_uint32_t max, void **bufs, hg_size_t *sizes, hg_uint32_t *actual);
hg_size_t   HG_Bulk_get_size(hg_bulk_t);
hg_uint32_t HG_Bulk_get_segment_count(hg_bulk_t);
hg_return_t HG_Bulk_transfer(hg_context_t *, hg_cb_t, void *arg, hg_bulk_op_t, hg_addr_t, hg_bulk_t origin, hg_size_t ooff, hg_bulk_t local, hg_size_t loff, hg_size_t size, hg_op_id_t *);
const char *HG_Error_to_string(hg_return_t);
#define HG_LOG_ERROR(...) do { } while (0)
#include "mercury_proc.h"
#endif
