#ifndef DRVUTIL_H
#define DRVUTIL_H
#include "pdc.h"
#include "pdc_client_connect.h"
#include "driver.h"
#include <mpi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
perr_t PDC_Client_close_all_server();
void sim_actor_end(void);
/* collective over the clients, as the close_server tool does it */
static inline void close_servers(struct drv *d)
{
    if (d->keep) { MPI_Barrier(MPI_COMM_WORLD); if (d->rank == 0) ex_note(ex_iparam("die", 0) ? "the application ends without closing anything, another one starts" : "the application ends, another one starts"); if (ex_iparam("die", 0)) { MPI_Barrier(MPI_COMM_WORLD); sim_actor_end(); } return; }
    MPI_Barrier(MPI_COMM_WORLD); if (d->rank == 0) ex_note("close servers"); PDC_Client_close_all_server(); MPI_Barrier(MPI_COMM_WORLD);
}
#endif
