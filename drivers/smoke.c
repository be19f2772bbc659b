#include "pdc.h"
#include "driver.h"
#include <stdio.h>
#include <string.h>
void driver_config(struct simcfg *c) { c->nservers = ex_iparam("ns", 1); }
perr_t PDC_Client_close_all_server();
void driver_main(struct drv *d)
{
    pdcid_t pdc = PDCinit("pdc"), cp = PDCprop_create(PDC_CONT_CREATE, pdc);
    pdcid_t c = PDCcont_create("c1", cp), op = PDCprop_create(PDC_OBJ_CREATE, pdc);
    uint64_t dims[1] = {8}, off[1] = {0}, sz[1] = {8};
    PDCprop_set_obj_dims(op, 1, dims);
    PDCprop_set_obj_type(op, PDC_INT);
    pdcid_t o = PDCobj_create(c, "o1", op);
    printf("ids %lx %lx %lx %lx %lx\n", pdc, cp, c, op, o);
    int w[8] = {1,2,3,4,5,6,7,8}, r[8] = {0};
    pdcid_t lr = PDCregion_create(1, off, sz), rr = PDCregion_create(1, off, sz);
    pdcid_t t = PDCregion_transfer_create(w, PDC_WRITE, o, lr, rr);
    printf("start %d\n", PDCregion_transfer_start(t));
    printf("wait %d\n", PDCregion_transfer_wait(t));
    PDCregion_transfer_close(t);
    t = PDCregion_transfer_create(r, PDC_READ, o, lr, rr);
    PDCregion_transfer_start(t);
    PDCregion_transfer_wait(t);
    PDCregion_transfer_close(t);
    for (int i = 0; i < 8; i++) printf("%d ", r[i]);
    printf("\n");
    int v = 42; void *vo = 0; pdc_var_type_t ty; psize_t vs;
    printf("put %d\n", PDCobj_put_tag(o, "k", &v, PDC_INT, sizeof v));
    printf("get %d\n", PDCobj_get_tag(o, "k", &vo, &ty, &vs));
    printf("val %d type %d size %d\n", *(int *)vo, ty, (int)vs);
    PDCobj_close(o); PDCcont_close(c); PDCprop_close(op); PDCprop_close(cp); PDCclose(pdc);
    printf("done\n");
}
