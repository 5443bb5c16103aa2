/* proto-data allocation: diag_calloc / free on one static object of type T.
 * Contract: diag_fl_alloc gives zeroed storage or an error (proved in C01);
 * free requires the object to be the allocated one. Define OBJ_T before. */
static OBJ_T obj_store;
static bool obj_live; static bool obj_failed;
#ifdef VP_REPLAY
#define OBJ_ZERO() memset(&obj_store, 0, sizeof(obj_store))
#else
static OBJ_T obj_zero;
#define OBJ_ZERO() (obj_store = obj_zero)
#endif
int diag_fl_alloc(const char *f, const int l, void **pp, size_t n, size_t s, bool c) {
	VP_CHECK("proto data allocated once, of the right size", !obj_live && n * s == sizeof(OBJ_T));
	if (vp_oom) { *pp = NULL; obj_failed = true; return DIAG_ERR_NOMEM; }
	OBJ_ZERO();
	obj_live = true;
	*pp = &obj_store;
	return 0;
}
static void obj_free(void *p) {
	VP_CHECK("free.pre: the allocated object, once", p == NULL || (p == (void *)&obj_store && obj_live));
	if (p != NULL) { obj_live = false; }
}
#undef free
#define free(p) obj_free(p)
