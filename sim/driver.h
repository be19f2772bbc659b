/* Interface between simrun (main.c) and a client driver compiled into client-*.so. */
#ifndef DRIVER_H
#define DRIVER_H
#include "sim.h"
struct simcfg { int nservers, nclients, nphases, crash, clean_close; };
struct drv {
    int   phase, rank, nclients, nservers;
    void *shared;          /* 1 MiB, survives phases (oracle state lives here) */
    int   crashed;         /* the previous phase ended in a crash              */
    int   keep;            /* the next phase runs on the servers of this one     */
};
void driver_config(struct simcfg *c); /* reads ex_param; sets the topology */
void driver_main(struct drv *d);      /* runs as MPI rank d->rank          */
#endif
