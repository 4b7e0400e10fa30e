/* Verification prelude. Included first by every harness; the harness then
 * includes the REAL source files of /repo (copied verbatim, on every run, from
 * the current working tree) into the same translation unit.
 *
 * Modes:
 *   VF_PROOF   cbmc; loops that carry a VF_LOOP contract are cut at their head
 *              (base / step obligations), inputs are unbounded
 *   VF_BMC     cbmc; no loop contracts, inputs bounded by VF_BOUND, used to get
 *              a concrete counterexample (and as the labelled bounded stand-in)
 *   VF_NATIVE  clang + ASan + UBSan + libFuzzer entry; replays a counterexample
 *              against the real code
 */
#ifndef VF_H
#define VF_H

#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <stddef.h>
#include <limits.h>
#include <string.h>
#include <strings.h>
#include <ctype.h>
#include <assert.h>
#include <inttypes.h>
#include <errno.h>
#include <stdarg.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <time.h>
#include <pthread.h>
#include <endian.h>

/* ------------------------------------------------------------------ */
#if defined(VF_PROOF) || defined(VF_BMC)
#define VF_CBMC 1
extern void __CPROVER_assume(_Bool);
extern void __CPROVER_assert(_Bool, const char *);
extern void __CPROVER_havoc_object(void *);
extern void __CPROVER_havoc_slice(void *, __CPROVER_size_t);
extern void __CPROVER_input(const char *, ...);
extern _Bool __CPROVER_same_object(const void *, const void *);
extern __CPROVER_size_t __CPROVER_POINTER_OFFSET(const void *);
extern __CPROVER_size_t __CPROVER_OBJECT_SIZE(const void *);

_Bool nondet_bool(void);
unsigned char nondet_u8(void);
unsigned short nondet_u16(void);
unsigned int nondet_u32(void);
unsigned long nondet_u64(void);
void *nondet_ptr(void);
#define VF_R_OK(p, n) __CPROVER_r_ok((p), (__CPROVER_size_t)(n))
#define VF_W_OK(p, n) __CPROVER_w_ok((p), (__CPROVER_size_t)(n))

#define REQUIRES(c)        __CPROVER_assume(c)
#define ASSUME(c)          __CPROVER_assume(c)
#define ENSURES(name, c)   __CPROVER_assert((c), "ENSURES " name)
#define LEMMA(name, c)     __CPROVER_assert((c), "LEMMA " name)
#define CALLEE_PRE(name,c) __CPROVER_assert((c), "PRE " name)
#define VF_REACH(name)     __CPROVER_assert(0, "VF_REACH " name)
#define VF_ABORT(what)     do { __CPROVER_assert(0, "NOABORT " what); __CPROVER_assume(0); } while (0)
#define VF_STOP()          __CPROVER_assume(0)

#define VF_OFF(p)     ((size_t)__CPROVER_POINTER_OFFSET(p))
#define VF_SAME(p,q)  __CPROVER_same_object(p,q)
#define VF_OBJSIZE(p) ((size_t)__CPROVER_OBJECT_SIZE(p))
/* pointer p lies in [base, base+len] of base's object */
#define VF_IN(p, base, len) (VF_SAME(p, base) && VF_OFF(p) >= VF_OFF(base) && VF_OFF(p) - VF_OFF(base) <= (size_t)(len))

/* --- registry of all memory reachable by the code under proof (frames) --- */
#define VF_REG_MAX 40
static char  *vf_reg_ptr[VF_REG_MAX];
static size_t vf_reg_len[VF_REG_MAX];
static unsigned vf_reg_n;
static void vf_reg(void *p, size_t n) {
#ifdef VF_PROOF
	if (p != NULL && n > 0) {
		__CPROVER_assert(vf_reg_n < VF_REG_MAX, "MACHINERY registry overflow");
		__CPROVER_assume(vf_reg_n < VF_REG_MAX);
		vf_reg_ptr[vf_reg_n] = p; vf_reg_len[vf_reg_n] = n; vf_reg_n++;
	}
#else
	(void)p; (void)n;
#endif
}
static void vf_unreg(void *p) {
#ifdef VF_PROOF
	for (unsigned i = 0; i < VF_REG_MAX; i++)
		if (i < vf_reg_n && vf_reg_ptr[i] == (char*)p) { vf_reg_len[i] = 0; }
#else
	(void)p;
#endif
}
/* pick an arbitrary byte of registered memory */
static const char *vf_pick_byte(void) {
	unsigned k = nondet_u32(); size_t o = nondet_u64();
	__CPROVER_assume(k < vf_reg_n && o < vf_reg_len[k]);
	return vf_reg_ptr[k] + o;
}
struct vf_frame { const char *p; char v; _Bool on; };
static inline struct vf_frame vf_frame_take(void) {
	struct vf_frame f; f.p = 0; f.v = 0; f.on = 0;
#ifdef VF_PROOF
	if (vf_reg_n > 0 && nondet_bool()) {
		unsigned k = nondet_u32(); size_t o = nondet_u64();
		if (k < vf_reg_n && o < vf_reg_len[k]) {
			f.p = vf_reg_ptr[k] + o; f.v = *f.p; f.on = 1;
		}
	}
#endif
	return f;
}
/* is frame byte inside [p, p+n) */
static inline _Bool vf_fr_in(struct vf_frame f, const void *q, size_t n) {
	return f.on && VF_SAME(f.p, (const char *) q) && VF_OFF(f.p) >= VF_OFF((const char *) q) && VF_OFF(f.p) - VF_OFF((const char *) q) < n;
}

/* an arbitrary distance between two addresses of one object */
static inline int64_t vf_noff(void) { int64_t o = (int64_t) nondet_u64(); __CPROVER_assume(o > -(1LL << 54) && o < (1LL << 54)); return o; }

static uint64_t vf_in64(uint64_t lo, uint64_t hi) {
	uint64_t raw = nondet_u64();
	__CPROVER_assume(raw <= hi - lo);
	__CPROVER_input("B8", raw);
	return lo + raw;
}
static uint32_t vf_in32(uint32_t lo, uint32_t hi) {
	uint32_t raw = nondet_u32();
	__CPROVER_assume(raw <= hi - lo);
	__CPROVER_input("B4", raw);
	return lo + raw;
}
static uint16_t vf_in16(uint16_t lo, uint16_t hi) {
	uint16_t raw = nondet_u16();
	__CPROVER_assume(raw <= hi - lo);
	__CPROVER_input("B2", raw);
	return (uint16_t)(lo + raw);
}
static uint8_t vf_in8(uint8_t lo, uint8_t hi) {
	uint8_t raw = nondet_u8();
	__CPROVER_assume(raw <= hi - lo);
	__CPROVER_input("B1", raw);
	return (uint8_t)(lo + raw);
}
static void *vf_new(size_t n) {
	void *p = malloc(n);
	__CPROVER_assume(p != 0);
	vf_reg(p, n);
	return p;
}
/* n fresh bytes of arbitrary content; (in BMC mode n must be <= VF_BUFMAX) */
#ifndef VF_BUFMAX
#define VF_BUFMAX 64
#endif
static char *vf_newbuf(size_t n) {
	char *p = vf_new(n);
#ifdef VF_BMC
	for (size_t i = 0; i < n; i++) { uint8_t b = nondet_u8(); __CPROVER_input("B1", b); p[i] = (char)b; }
#endif
	return p;
}
/* fill an existing small fixed-size object with arbitrary bytes */
static void vf_fill(void *q, size_t n) {
	unsigned char *p = q;
#ifdef VF_PROOF_HAVOC_FILL
	__CPROVER_havoc_slice(p, n);
#else
	for (size_t i = 0; i < n; i++) { uint8_t b = nondet_u8(); __CPROVER_input("B1", b); p[i] = b; }
#endif
}

/* allocations made by the code under proof are registered for frames */
#ifdef VF_PROOF
static void *vf_malloc(size_t n) { void *p = malloc(n); vf_reg(p, n); return p; }
static void vf_free(void *p) { vf_unreg(p); free(p); }
#define malloc(n) vf_malloc(n)
#define free(p)   vf_free(p)
#endif

/* memcpy of a non-constant number of bytes by its contract: source readable,
 * target writable, disjoint; the target bytes become arbitrary except at the
 * witness offsets (0..7 and the arbitrary offsets vf_cpw[]), where they are the
 * source bytes. Since vf_cpw[] is arbitrary this is the full statement for the
 * byte a harness looks at. Selected by VF_MEMCPY_WITNESS. */
#if defined(VF_PROOF) && defined(VF_MEMCPY_WITNESS)
#ifndef VF_CPW_FIXED
#define VF_CPW_FIXED 8
#endif
#ifndef VF_CPW_N
#define VF_CPW_N 4
#endif
static size_t vf_cpw[VF_CPW_N];
#define VF_CPW_ALL (VF_CPW_FIXED + VF_CPW_N)
#define VF_CPW_OFF(k) ((k) < VF_CPW_FIXED ? (size_t) (k) : vf_cpw[(k) - VF_CPW_FIXED])
static void *vf_memcpy_w(void *d, const void *s, size_t n) {
	if (n == 0) return d;
	CALLEE_PRE("memcpy source readable", VF_R_OK(s, n));
	CALLEE_PRE("memcpy target writable", VF_W_OK(d, n));
	CALLEE_PRE("memcpy regions disjoint", !VF_SAME(d, s) || VF_OFF(d) + n <= VF_OFF(s) || VF_OFF(s) + n <= VF_OFF(d));
	REQUIRES(VF_R_OK(s, n) && VF_W_OK(d, n));
	char v[VF_CPW_ALL];
	for (unsigned k = 0; k < VF_CPW_ALL; k++) { size_t o = VF_CPW_OFF(k); if (o < n) v[k] = ((const char *) s)[o]; }
	__CPROVER_havoc_slice(d, n);
	for (unsigned k = 0; k < VF_CPW_ALL; k++) { size_t o = VF_CPW_OFF(k); if (o < n) ((char *) d)[o] = v[k]; }
	return d;
}
static void *vf_memset_w(void *d, int c, size_t n) {
	if (n == 0) return d;
	CALLEE_PRE("memset target writable", VF_W_OK(d, n));
	REQUIRES(VF_W_OK(d, n));
	__CPROVER_havoc_slice(d, n);
	for (unsigned k = 0; k < VF_CPW_ALL; k++) { size_t o = VF_CPW_OFF(k); if (o < n) ((char *) d)[o] = (char) c; }
	return d;
}
static void *vf_realloc_w(void *p, size_t n) {
	if (nondet_bool()) return NULL;
	char *q = vf_malloc(n);
	__CPROVER_assume(q != NULL);
	if (p == NULL) return q;
	size_t m = VF_OBJSIZE(p) < n ? VF_OBJSIZE(p) : n;
	for (unsigned k = 0; k < VF_CPW_ALL; k++) { size_t o = VF_CPW_OFF(k); if (o < m) q[o] = ((const char *) p)[o]; }
	vf_free(p);
	return q;
}
static void *vf_memcpy_c(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
static void *vf_memset_c(void *d, int c, size_t n) { return memset(d, c, n); }
#define memcpy(d, s, n) (__builtin_constant_p(n) ? vf_memcpy_c((d), (s), (n)) : vf_memcpy_w((d), (s), (n)))
#define memset(d, c, n) (__builtin_constant_p(n) ? vf_memset_c((d), (c), (n)) : vf_memset_w((d), (c), (n)))
#define realloc(p, n) vf_realloc_w((p), (n))
#endif

/* The mathematical contract of unsigned remainder, used instead of the
 * bit-level divider in functions marked VF_MOD: a == P + r, r < b, P is a
 * multiple of b (ghost: recorded), and % is a function of (a,b). The set of
 * multiples of b is closed under adding b, which is all the proofs use. */
#define VF_UMOD_MAX 8
static uint64_t vf_umod_a[VF_UMOD_MAX], vf_umod_b[VF_UMOD_MAX], vf_umod_r[VF_UMOD_MAX], vf_umod_P[VF_UMOD_MAX];
static unsigned vf_umod_n;
static uint64_t vf_umod(uint64_t a, uint64_t b) {
	__CPROVER_assert(b != 0, "PRE % divisor is not zero");
	__CPROVER_assume(b != 0);
	uint64_t r = nondet_u64();
	__CPROVER_assume(r < b && r <= a);
	for (unsigned i = 0; i < VF_UMOD_MAX; i++)
		if (i < vf_umod_n && vf_umod_a[i] == a && vf_umod_b[i] == b) __CPROVER_assume(r == vf_umod_r[i]);
	__CPROVER_assert(vf_umod_n < VF_UMOD_MAX, "MACHINERY umod log");
	__CPROVER_assume(vf_umod_n < VF_UMOD_MAX);
	vf_umod_a[vf_umod_n] = a; vf_umod_b[vf_umod_n] = b; vf_umod_r[vf_umod_n] = r; vf_umod_P[vf_umod_n] = a - r;
	vf_umod_n++;
	return r;
}
/* x is provably a multiple of b: one of the recorded multiples, plus at most one b */
static int vf_is_multiple(uint64_t x, uint64_t b) {
	int ok = 0;
	for (unsigned i = 0; i < VF_UMOD_MAX; i++)
		if (i < vf_umod_n && vf_umod_b[i] == b && (x == vf_umod_P[i] || x == vf_umod_P[i] + b)) ok = 1;
	return ok;
}

#else /* ------------------------------------------------ VF_NATIVE */
#define vf_umod(a, b) ((uint64_t)(a) % (uint64_t)(b))
#define vf_is_multiple(x, b) ((uint64_t)(x) % (uint64_t)(b) == 0)

#include <setjmp.h>
#include <unistd.h>
#include <signal.h>
extern const uint8_t *vf_data; extern size_t vf_data_n, vf_data_pos;
extern jmp_buf vf_jmp;
extern char *vf_allocs[]; extern unsigned vf_allocs_n;
static uint64_t vf_draw(unsigned n) {
	uint64_t r = 0;
	for (unsigned i = 0; i < n; i++) {
		uint64_t b = vf_data_pos < vf_data_n ? vf_data[vf_data_pos] : 0;
		vf_data_pos++;
		r |= b << (8*i);
	}
	return r;
}
static inline uint64_t vf_in64(uint64_t lo, uint64_t hi) { uint64_t d = hi - lo, r = vf_draw(8); return lo + (d == UINT64_MAX ? r : r % (d + 1)); }
static inline uint32_t vf_in32(uint32_t lo, uint32_t hi) { uint64_t d = (uint64_t)hi - lo, r = vf_draw(4); return (uint32_t)(lo + r % (d + 1)); }
static inline uint16_t vf_in16(uint16_t lo, uint16_t hi) { uint64_t d = (uint64_t)hi - lo, r = vf_draw(2); return (uint16_t)(lo + r % (d + 1)); }
static inline uint8_t  vf_in8 (uint8_t lo, uint8_t hi)   { uint64_t d = (uint64_t)hi - lo, r = vf_draw(1); return (uint8_t)(lo + r % (d + 1)); }
static inline void *vf_new(size_t n) {
	void *p = malloc(n ? n : 1);
	if (p == NULL || vf_allocs_n >= 4096) longjmp(vf_jmp, 1);
	vf_allocs[vf_allocs_n++] = p;
	return n ? p : p;
}
static inline char *vf_newbuf(size_t n) {
	char *p = vf_new(n);
	for (size_t i = 0; i < n; i++) p[i] = (char) vf_draw(1);
	return p;
}
static inline void vf_fill(void *q, size_t n) { unsigned char *p = q; for (size_t i = 0; i < n; i++) p[i] = (unsigned char) vf_draw(1); }
static inline void vf_reg(void *p, size_t n) { (void)p; (void)n; }
/* an object given by vf_new was freed/reallocated by the code under test */
static inline void vf_gone(void *p) { for (unsigned i = 0; i < vf_allocs_n; i++) if (vf_allocs[i] == p) vf_allocs[i] = NULL; }
#define REQUIRES(c)        do { if (!(c)) longjmp(vf_jmp, 1); } while (0)
#define ASSUME(c)          REQUIRES(c)
#define ENSURES(name, c)   do { if (!(c)) { fprintf(stderr, "VF-FAILED ENSURES %s\n", name); abort(); } } while (0)
#define LEMMA(name, c)     do { if (!(c)) { fprintf(stderr, "VF-FAILED LEMMA %s\n", name); abort(); } } while (0)
#define CALLEE_PRE(name,c) do { if (!(c)) { fprintf(stderr, "VF-FAILED PRE %s\n", name); abort(); } } while (0)
#define VF_REACH(name)     do { } while (0)
#define VF_ABORT(what)     do { fprintf(stderr, "VF-FAILED NOABORT %s\n", what); abort(); } while (0)
#define VF_STOP()          longjmp(vf_jmp, 1)
#endif
#ifdef VF_CBMC
static inline void vf_gone(void *p) { (void)p; }
#endif

#define vf_bool() ((int) vf_in8(0, 1))
#define vf_i32()  ((int32_t) vf_in32(0, UINT32_MAX))
#define vf_i64()  ((int64_t) vf_in64(0, UINT64_MAX))
#define vf_u64()  vf_in64(0, UINT64_MAX)
#define vf_u32()  vf_in32(0, UINT32_MAX)
#define vf_u16()  vf_in16(0, UINT16_MAX)
#define vf_u8()   vf_in8(0, UINT8_MAX)

/* input-size helper: any size in proofs, bounded size otherwise */
#ifndef VF_BOUND
#define VF_BOUND 6
#endif
#ifdef VF_PROOF
#define VF_LEN32(lo, bound)  vf_in32((lo), 0x7fffffff)
#define VF_LEN64(lo, bound)  vf_in64((lo), 0xffffffffffffULL)
#else
#define VF_LEN32(lo, bound)  vf_in8((lo), (bound))
#define VF_LEN64(lo, bound)  vf_in8((lo), (bound))
#endif

/* ------------------------------------------------------------------
 * The repository's own log/abort macros. Logging is dropped (the only text
 * the extraction drops); an abort (RRR_BUG, RRR_ABORT) becomes a proof
 * obligation "never reached". */
#include "log.h"
#undef RRR_MSG_PLAIN
#undef RRR_MSG_PLAIN_N
#undef RRR_MSG_0
#undef RRR_MSG_1
#undef RRR_MSG_2
#undef RRR_MSG_3
#undef RRR_MSG_4
#undef RRR_MSG_ERR
#undef RRR_MSG_X
#undef RRR_MSG_JSON
#undef RRR_MSG_0_V
#undef RRR_DBG_X
#undef RRR_DBG_1
#undef RRR_DBG_2
#undef RRR_DBG_3
#undef RRR_DBG_4
#undef RRR_DBG_5
#undef RRR_DBG_6
#undef RRR_DBG_7
#undef RRR_DBG_8
#undef RRR_DBG
#undef RRR_BUG
#undef RRR_ABORT
#undef RRR_MSG_0_PRINTF
#undef RRR_DBG_9_PRINTF
#undef RRR_DEBUGLEVEL_1
#undef RRR_DEBUGLEVEL_2
#undef RRR_DEBUGLEVEL_3
#undef RRR_DEBUGLEVEL_4
#undef RRR_DEBUGLEVEL_5
#undef RRR_DEBUGLEVEL_6
#undef RRR_DEBUGLEVEL_7
#undef RRR_DEBUGLEVEL_8
#undef RRR_DEBUGLEVEL_9
#undef RRR_DEBUGLEVEL
#define RRR_MSG_PLAIN(...)   ((void)0)
#define RRR_MSG_PLAIN_N(...) ((void)0)
#define RRR_MSG_0(...)       ((void)0)
#define RRR_MSG_1(...)       ((void)0)
#define RRR_MSG_2(...)       ((void)0)
#define RRR_MSG_3(...)       ((void)0)
#define RRR_MSG_4(...)       ((void)0)
#define RRR_MSG_ERR(...)     ((void)0)
#define RRR_MSG_X(...)       ((void)0)
#define RRR_MSG_JSON(...)    ((void)0)
#define RRR_MSG_0_V(...)     ((void)0)
#define RRR_DBG_X(...)       ((void)0)
#define RRR_DBG_1(...)       ((void)0)
#define RRR_DBG_2(...)       ((void)0)
#define RRR_DBG_3(...)       ((void)0)
#define RRR_DBG_4(...)       ((void)0)
#define RRR_DBG_5(...)       ((void)0)
#define RRR_DBG_6(...)       ((void)0)
#define RRR_DBG_7(...)       ((void)0)
#define RRR_DBG_8(...)       ((void)0)
#define RRR_DBG(...)         ((void)0)
#define RRR_BUG(...)         VF_ABORT("RRR_BUG")
#define RRR_ABORT(...)       VF_ABORT("RRR_ABORT")
#define RRR_MSG_0_PRINTF(...) ((void)0)
#define RRR_DBG_9_PRINTF(...) ((void)0)
#define RRR_DEBUGLEVEL_1 (0)
#define RRR_DEBUGLEVEL_2 (0)
#define RRR_DEBUGLEVEL_3 (0)
#define RRR_DEBUGLEVEL_4 (0)
#define RRR_DEBUGLEVEL_5 (0)
#define RRR_DEBUGLEVEL_6 (0)
#define RRR_DEBUGLEVEL_7 (0)
#define RRR_DEBUGLEVEL_8 (0)
#define RRR_DEBUGLEVEL_9 (0)
#define RRR_DEBUGLEVEL   (0)

#endif
