CFGH = '''#define _GNU_SOURCE
#include "seed_l0.h"
'''
SEED("S21a", "C21", "diag_cfg.c", [("	strcpy(newstr, str);    //before the old value is gone; str may be part of it\n	if (cfgp->dyn_val", "	if (cfgp->dyn_val"), ("	cfgp->val.str = newstr;\n", "	cfgp->val.str = newstr;\n	strcpy(newstr, str);\n")] if 0 else [("	cfgp->dyn_val = 0;\n	cfgp->val.str=NULL;\n\n	optarray_clear(cfgp);\n", "	cfgp->val.str=NULL;\n\n	optarray_clear(cfgp);\n	cfgp->dyn_val = 0;\n	if (cfgp->dval.str == NULL) {\n		cfgp->dyn_dval = 0;\n	}\n"), ("	cfgp->dyn_dval = 0;\n	cfgp->dval.str=NULL;\n}", "	cfgp->dyn_dval = 0;\n}")],
 CFGH + '''int main(void) {
	struct cfgi c = {0};
	if (diag_cfgn_str(&c, "abc", "d", "s")) { DIE("new"); }
	diag_cfg_clear(&c);
	if (c.dval.str != NULL) { DIE("the default points to released memory"); }
	_exit(0);
}''', "using or clearing an option after it was cleared", "its default points to released memory")
SEED("S21b", "C21", "diag_cfg.c", [("		if (cfgp->dval.str == NULL) {\n			return;\n		}\n", "		if (cfgp->dval.str == NULL || !cfgp->val.str || strlen(cfgp->val.str) == 0) {\n			return;\n		}\n")],
 CFGH + '''int main(void) {
	struct cfgi c = {0};
	if (diag_cfgn_str(&c, "abc", "d", "s")) { DIE("new"); }
	diag_cfg_setstr(&c, "");
	diag_cfg_reset(&c);
	if (strcmp(c.val.str, "abc")) { DIE("not reset: '%s'", c.val.str); }
	_exit(0);
}''', "resetting an option that was set to an empty text", "it stays empty")
SEED("S21c", "C21", "diag_general.c", [("	while (elems > 0) {\n		if (list[elems - 1]) {", "	while (elems > 1) {\n		if (list[elems - 1]) {")],
 CFGH + '''#include <malloc.h>
static int live;
int main(void) {
	size_t n = 20000, a = 0;
	char *s = malloc(n); memset(s, 'x', n - 1); s[n - 1] = 0;
	struct mallinfo2 m0 = mallinfo2();
	(void)m0; (void)a; (void)live;
	char **l = strlist_add(NULL, s, 0);
	char *e = l[0];
	strlist_free(l, 1);
	/* the sanitizer tells whether the element was released */
	extern int __asan_address_is_poisoned(void const volatile *);
	if (!__asan_address_is_poisoned(e)) { DIE("element not released"); }
	_exit(0);
}''', "releasing a list of texts", "its first element is leaked")
