#ifndef SIM_MERCURY_COND_H
#define SIM_MERCURY_COND_H
#include "mercury_thread_mutex.h"
typedef pthread_cond_t hg_thread_cond_t;
int hg_thread_cond_init(hg_thread_cond_t *);
int hg_thread_cond_destroy(hg_thread_cond_t *);
int hg_thread_cond_signal(hg_thread_cond_t *);
int hg_thread_cond_wait(hg_thread_cond_t *, hg_thread_mutex_t *);
int hg_thread_cond_timedwait(hg_thread_cond_t *, hg_thread_mutex_t *, unsigned ms);
#endif
