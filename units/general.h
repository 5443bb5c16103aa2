#include "diag.h"
#include "diag_os.h"
#include "diag_err.h"
#include "diag_dtc.h"
#include "diag_l1.h"
#include "diag_l2.h"
#include "diag_l3.h"
int diag_l0_debug, diag_l1_debug, diag_l2_debug, diag_l3_debug;
int diag_l1_init(void) { return 0; }
int diag_l1_end(void) { return 0; }
int diag_l2_init(void) { return 0; }
int diag_l2_end(void) { return 0; }
void diag_l3_init(void) { }
void diag_l3_end(void) { }
int diag_os_init(void) { return 0; }
int diag_os_close(void) { return 0; }
void diag_dtc_init(void) { }
void diag_os_initstaticmtx(diag_mtx *m) { }
void diag_os_delmtx(diag_mtx *m) { }
void diag_os_lock(diag_mtx *m) { }
void diag_os_unlock(diag_mtx *m) { }
#include "diag_general.c"
