/* Arrays by their definition (A09 shows that the real ones are this), for the coroutine
 * harnesses: a real array's storage in words makes every pointer in it unknown to the encoder. */
#ifndef VP_CORO_ARR_H
#define VP_CORO_ARR_H
#define volatile
#define VPC_NO_ARRAYS
#define VPC_OWN_CALLOC
#include <stddef.h>
#include <stdio.h>
static void *vpc_other_calloc(size_t n);
#include "arrays.h"
static array_t va_num(array_t a, size_t v);
#undef $append_unsigned
#define $append_unsigned(arr, value) ((arr) = va_num(arr, value))
#define snprintf(...) 5
#include "coro.h"
#ifndef VA_MAX
#define VA_MAX 3
#endif
static values_t va0[8], va1[8], va2[8], va3[8];
static array_t va_at(int k) { switch (k) { case 0: return va0; case 1: return va1; case 2: return va2; } return va3; }
static int va_n[4], va_k, va_live[4];
array_t array(void) { VP_ASSERT(va_k < VA_MAX, "arrays suffice"); va_live[va_k] = 1; return va_at(va_k++); }
static int va_of(array_t a) {
	if (a == va0) return 0;
	if (a == va1) return 1;
	if (a == va2) return 2;
	if (a == va3) return 3;
	VP_ASSERT(0, "an array in use"); VP_ASSUME(0); return 0;
}
size_t data_size(array_t a) { int k; if (a == NULL) return 0; k = va_of(a); VP_ASSERT(va_live[k], "an array in use"); return va_n[k]; }
array_t data_append(array_t a, void *v) { int k = va_of(a); a = va_at(k); VP_ASSERT(va_live[k] && va_n[k] < 8, "an array in use"); a[va_n[k]++].object = v; return a; }
static array_t va_num(array_t a, size_t v) { int k = va_of(a); a = va_at(k); VP_ASSERT(va_live[k] && va_n[k] < 8, "an array in use"); a[va_n[k]++].max_size = v; return a; }
void data_remove(array_t a, size_t i) {
	int k = va_of(a); size_t j;
	a = va_at(k); va_n[k]--;
	for (j = 0; j < 7; j++) if (j >= i && j < va_n[k]) a[j].object = a[j + 1].object;
}
values_t data_pop(array_t a) { int k = va_of(a); a = va_at(k); VP_ASSERT(va_n[k] > 0, "an element to take"); return a[--va_n[k]]; }
void data_delete(array_t a) { if (a) { VP_ASSERT(va_live[va_of(a)], "an array is released once"); va_live[va_of(a)] = 0; } }
array_t data_ex(size_t n, va_list ap) { return NULL; }
static int gc_n;
static void *gc[8];
void data_gc(void *p) { gc[gc_n++] = p; }
const data_values_t data_values_empty[1] = {0};
bool is_ptr_usable(void *p) { return p != NULL; }
bool is_data(void *a) { return a == (void *)va0 ? va_live[0] : a == (void *)va1 ? va_live[1] : a == (void *)va2 ? va_live[2] : a == (void *)va3 ? va_live[3] : false; }
#ifndef VP_OWN_TYPE
data_types data_type(void *p) { return p == NULL ? DATA_INVALID : is_data(p) ? DATA_ARRAY : *(data_types *)p; }
#endif
#endif
