/* Shared vocabulary of every harness: one source text, two builds.
 *
 *   goto-cc (CBMC)  VP_CBMC is defined by the driver: inputs are symbolic, VP_ASSERT is a
 *                   proof obligation, VP_ASSUME restricts the explored values.
 *   gcc (replay)    inputs come from the counterexample file in order, VP_ASSERT aborts.
 */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>

#ifdef VP_CBMC
unsigned char nondet_vp_u8(void);
unsigned short nondet_vp_u16(void);
unsigned int nondet_vp_u32(void);
unsigned long nondet_vp_u64(void);
static inline unsigned char  vp_u8(void)  { unsigned char  vp_input = nondet_vp_u8();  return vp_input; }
static inline unsigned short vp_u16(void) { unsigned short vp_input = nondet_vp_u16(); return vp_input; }
static inline unsigned int   vp_u32(void) { unsigned int   vp_input = nondet_vp_u32(); return vp_input; }
static inline unsigned long  vp_u64(void) { unsigned long  vp_input = nondet_vp_u64(); return vp_input; }
#define VP_ASSUME(c) __CPROVER_assume(c)
# ifdef VP_VACUITY
#  define VP_ASSERT(c, text) ((void)(c))
#  define VP_REACH(n) __CPROVER_assert(0, "vp-reach " #n)
# else
#  define VP_ASSERT(c, text) __CPROVER_assert((c), "vp: " text)
#  define VP_REACH(n) ((void)0)
# endif
#else
unsigned char  vp_u8(void);
unsigned short vp_u16(void);
unsigned int   vp_u32(void);
unsigned long  vp_u64(void);
void vp_assume_(int c, const char *text);
void vp_assert_(int c, const char *text, const char *file, int line);
void vp_reach_(int n);
#define VP_ASSUME(c) vp_assume_(!!(c), #c)
#define VP_ASSERT(c, text) vp_assert_(!!(c), text, __FILE__, __LINE__)
#define VP_REACH(n) vp_reach_(n)
#endif

static inline int vp_i32(void) { return (int)vp_u32(); }
static inline long vp_i64(void) { return (long)vp_u64(); }
static inline int vp_bool(void) { return vp_u8() & 1; }

/* value in [lo, hi] */
static inline unsigned vp_range(unsigned lo, unsigned hi) {
	unsigned v = vp_u32();
	VP_ASSUME(v >= lo && v <= hi);
	return v;
}
static inline int vp_irange(int lo, int hi) {
	int v = vp_i32();
	VP_ASSUME(v >= lo && v <= hi);
	return v;
}

#ifndef VP_NO_MAIN
void harness(void);
# ifdef VP_CBMC
int main(void) { harness(); return 0; }
# endif
#endif
#endif
