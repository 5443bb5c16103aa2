/* Environment of an L2 protocol unit: real message objects (diag_general.c),
 * contract stubs for everything below. */
#ifndef L2ENV_H
#define L2ENV_H
#define diag_l0_debug gen_l0_debug_
#define diag_l1_debug gen_l1_debug_
#define diag_l2_debug gen_l2_debug_
#define diag_l3_debug gen_l3_debug_
#define diag_p_pseterr gen_p_pseterr
#define diag_p_iseterr gen_p_iseterr
#define diag_p_pfwderr gen_p_pfwderr
#define diag_p_ifwderr gen_p_ifwderr
#define diag_data_dump gen_data_dump
#define diag_errlookup gen_errlookup
#ifdef STUB_CKS
#define diag_cks1 gen_cks1
#endif
#include "diag.h"
#include "diag_err.h"
#undef diag_pseterr
#undef diag_iseterr
#undef diag_pfwderr
#undef diag_ifwderr
#define diag_pseterr(C) ((void)(C), (void *)NULL)
#define diag_iseterr(C) (C)
#define diag_pfwderr(C) ((void)(C), (void *)NULL)
#define diag_ifwderr(C) (C)
#include "general.h"
#undef diag_l0_debug
#undef diag_l1_debug
#undef diag_l2_debug
#undef diag_l3_debug
#undef diag_p_pseterr
#undef diag_p_iseterr
#undef diag_p_pfwderr
#undef diag_p_ifwderr
#undef diag_data_dump
#undef diag_errlookup
#undef diag_cks1
#define STUBS_NO_FLALLOC
/* macros in diag_err.h expand to the diag_p_ names, declared above as gen_: redeclare */
void *diag_p_pseterr(const char *n, const int l, const int c);
int diag_p_iseterr(const char *n, const int l, const int c);
void *diag_p_pfwderr(const char *n, const int l, const int c);
int diag_p_ifwderr(const char *n, const int l, const int c);
void diag_data_dump(FILE *out, const void *data, size_t len);
const char *diag_errlookup(const int code);
extern int diag_l0_debug, diag_l1_debug, diag_l2_debug, diag_l3_debug;
#ifdef STUB_CKS
uint8_t diag_cks1(const uint8_t *data, unsigned int len);
#endif
#include "stubs_l1.h"
#endif
