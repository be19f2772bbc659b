/* Deterministic in-process world: cooperative actors, simulated Mercury network, MPI, clock and file system. */
#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <stddef.h>
#include "explore.h"
enum { ACT_CLIENT = 1, ACT_SERVER, ACT_THREAD };
int   sim_world(int nranks);                                   /* new MPI world                               */
int   sim_spawn(const char *name, int kind, int world, int rank, void (*fn)(void *), void *arg);
void  sim_run(void);                                           /* until every client actor has returned       */
int   sim_run_until(int (*pred)(void *), void *arg);           /* 1: predicate reached, 0: nothing can run    */
void  sim_kill_all(void);                                      /* forget every actor and message (crash)      */
int   sim_self(void);
void  sim_advance(double seconds);                             /* client: let virtual time pass               */
void  sim_arm_crash(int on);                                     /* file mutations become crash points            */
void  sim_wait(int (*ready)(void *), void *arg, const char *why);
double sim_now(void);
extern int sim_window;         /* 1: explore schedules (drivers set it around the operations of interest)       */
extern int sim_bulk_park;      /* 1: RDMA operations overtake each other, and one that is passed over waits until nothing else is left */
extern int sim_bulk_late;      /* 1: RDMA happens at completion time, 0: at issue time                        */
extern int sim_sched_choice;   /* explore scheduling between servers/threads (deviations)                     */
extern int sim_deliver_choice; /* 0 FIFO, 1 deviations between channels, 2 free choice                        */
extern int sim_preempt_choice; /* explore preemption at mutex operations                                      */
extern int sim_exited;         /* exit() was called by simulated code                                         */
extern long sim_msgs;
/* memfs */
typedef struct mnode { char path[512]; size_t size; struct { size_t no; unsigned char *p; } *pg; int npg, pgcap, exists, isdir; } mnode;
void memfs_put(mnode *n, size_t off, const void *b, size_t len);
void sim_preempt(const char *what);
extern int sim_preempt_free, sim_preempt_io;
mnode *memfs_find(const char *path);
mnode *memfs_create(const char *path);
int    memfs_count(void);
mnode *memfs_at(int i);
extern void (*memfs_hook)(const char *op, mnode *n, size_t off, const void *buf, size_t len); /* before a mutation */
extern int memfs_fail_next, memfs_fail_after; /* after memfs_fail_after writes, the next memfs_fail_next writes fail */
void memfs_close_all(void);
void memfs_heap_gone(void);
uint64_t memfs_hash(void);
#endif
