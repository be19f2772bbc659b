#ifndef SIM_MERCURY_REQUEST_H
#define SIM_MERCURY_REQUEST_H
#include "mercury.h"
typedef struct hg_request hg_request_t;
#endif
