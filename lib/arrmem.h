/* Typed storage for arrays: includes arrays.c and gives each array a block of its own with
 * VPA_CAP elements. A moved or deleted block is overwritten, so that anything still using it
 * is noticed. Blocks are distinct objects, never used twice. */
#ifndef VP_ARRMEM_H
#define VP_ARRMEM_H
#define VP_OWN_ALLOC
#include "env.h"
#undef memmove
#define memmove vpa_memmove
static void *vpa_memmove(void *d, const void *s, size_t n) {
	/* towards lower addresses, whole elements */
	size_t i;
	unsigned long *a = d; const unsigned long *b = s;
	for (i = 0; i < n / sizeof(values_t); i++) a[i] = b[i];
	return d;
}
#include "arrays.c"
#ifndef VPA_CAP
#define VPA_CAP 12
#endif
#define VPA_HDR (sizeof(array_metadata_t) / sizeof(values_t))
#define VPA_BYTES sizeof(vpa0)
static unsigned long vpa0[VPA_HDR + VPA_CAP], vpa1[VPA_HDR + VPA_CAP], vpa2[VPA_HDR + VPA_CAP], vpa3[VPA_HDR + VPA_CAP],
	vpa4[VPA_HDR + VPA_CAP], vpa5[VPA_HDR + VPA_CAP], vpa6[VPA_HDR + VPA_CAP], vpa7[VPA_HDR + VPA_CAP];
static int vpa_used, vpa_live;
static size_t vpa_asked;
static unsigned long *vpa_at(int k) {
#ifndef VP_CBMC
	/* usable addresses lie high */
	return calloc(1, VPA_BYTES);
#endif
	switch (k) { case 0: return vpa0; case 1: return vpa1; case 2: return vpa2; case 3: return vpa3;
	case 4: return vpa4; case 5: return vpa5; case 6: return vpa6; case 7: return vpa7; }
	VP_ASSERT(0, "blocks suffice"); VP_ASSUME(0); return 0;
}
static void vpa_junk(unsigned long *o) {
	unsigned i;
	((array_metadata_t *)o)->type = 99; ((array_metadata_t *)o)->size = 0x7777; ((array_metadata_t *)o)->capacity = 0x7777;
	for (i = 0; i < VPA_CAP; i++) o[VPA_HDR + i] = 0x55;
}
void *events_malloc(size_t n) {
	VP_ASSERT(n >= sizeof(array_metadata_t) && n <= VPA_BYTES, "storage stays in proportion");
	vpa_asked = n; vpa_live++;
	return vpa_at(vpa_used++);
}
void *events_realloc(void *p, size_t n) {
	unsigned long *o = p, *q;
	unsigned i;
	VP_ASSERT(n >= sizeof(array_metadata_t) && n <= VPA_BYTES, "storage stays in proportion");
	vpa_asked = n;
#ifdef VPA_INPLACE
	return p;
#else
	q = vpa_at(vpa_used++);
	for (i = 0; i < VPA_HDR + VPA_CAP; i++) q[i] = o[i];
	vpa_junk(o);
	return q;
#endif
}
#ifndef VPA_OWN_FREE
void *events_calloc(size_t c, size_t n) { VP_ASSERT(0, "unused"); return 0; }
void events_free(void *p) { vpa_live--; vpa_junk(p); }
#endif
#endif
