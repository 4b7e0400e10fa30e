//@ property C24
//@ proof p_conv unwind=2 funcs=rrr_int_from_slength_bug_const,rrr_int_from_biglength_err,rrr_int_from_biglength_bug_const,rrr_int_from_biglength_abort_const,rrr_int_from_length_err,rrr_length_from_slength_err,rrr_length_from_slength_bug_const,rrr_length_from_ssize_bug_const,rrr_u16_from_biglength_bug_const,rrr_u16_from_slength_bug_const,rrr_length_from_biglength_err,rrr_length_from_biglength_bug_const,rrr_length_from_size_t_err,rrr_length_from_size_t_bug_const,rrr_size_from_biglength_trunc,rrr_size_from_biglength_bug_const,rrr_size_from_biglength_err
//@ proof p_add unwind=2 funcs=rrr_length_add_bug_const,rrr_length_add_err,rrr_length_add_bug,rrr_biglength_add_err,rrr_biglength_add_bug,rrr_length_inc_err,rrr_length_inc_bug,rrr_biglength_inc_bug,rrr_size_t_inc_bug,rrr_length_inc_bug_const,rrr_size_t_inc_bug_const,rrr_length_inc_bug_new_value,rrr_length_inc_bug_old_value,__rrr_types_checked_length_counter_add
//@ proof p_sub unwind=2 funcs=rrr_length_sub_bug,rrr_length_sub_bug_const,rrr_biglength_sub_bug,rrr_biglength_from_ssize_sub_bug,rrr_length_from_slength_sub_err,rrr_length_from_slength_sub_bug_const,rrr_length_from_biglength_sub_bug_const,rrr_biglength_sub_bug_const,rrr_length_dec_bug,rrr_length_dec_bug_const,__rrr_types_checked_length_counter_sub
//@ proof p_ptr unwind=2 funcs=rrr_length_from_ptr_sub_err,rrr_length_from_ptr_sub_bug_const,rrr_biglength_from_ptr_sub_bug_const flags=--no-pointer-check,--no-pointer-primitive-check native=0
//@ proof p_mul unwind=2 funcs=rrr_length_mul_bug solver=z3 timeout=60
//@ bounded p_conv unwind=2 bound=6
//@ bounded p_add unwind=2 bound=6
//@ bounded p_sub unwind=2 bound=6
//@ bounded b_ptr unwind=2 bound=6 nobmc=1
//@ bounded p_mul unwind=2 bound=6 solver=z3
//@ bounded b_mul_err unwind=2 bound=6 always=1 funcs=rrr_biglength_mul_err
//@ assume pointer differences: any two machine addresses (the arguments are compared and subtracted as addresses only)
//@ bounded b_mul_err_native unwind=2 bound=6 nobmc=1
//@ assume rrr_biglength_mul_err is decided by the bounded stand-in only (first operand 0, 1, 2, 2^20, 2^32 or 2^64-1; any second operand); 64 bit division by a variable is outside the solver's reach
//@ assume the counter addition is called with operands below 2^63 - 2^32 (larger ones are signed overflow before the check)
#include "vf.h"
/* a bug trap is allowed exactly when the exact result is not representable */
static _Bool g_fits;
#undef RRR_BUG
#undef RRR_ABORT
#define RRR_BUG(...)   do { ENSURES("aborts only when the exact result does not fit", !g_fits); VF_STOP(); } while (0)
#define RRR_ABORT(...) RRR_BUG()
#include "rrr_types.h"
typedef __int128 wide;

/* value helper: aborts unless exact fits */
#define CONST(text, exact, lo, hi, call) do { \
	wide x__ = (exact); g_fits = x__ >= (wide)(lo) && x__ <= (wide)(hi); \
	wide r__ = (wide)(call); \
	ENSURES(text ": exact or abort", g_fits && r__ == x__); } while (0)
/* error helper: returns nonzero and keeps away from the result unless exact fits */
#define ERR(text, exact, lo, hi, type, init, callexpr) do { \
	wide x__ = (exact); g_fits = x__ >= (wide)(lo) && x__ <= (wide)(hi); type t = (init); type *T = &t; \
	int r__ = (callexpr); \
	ENSURES(text ": reports an error exactly when the result does not fit", (r__ == 0) == g_fits); \
	ENSURES(text ": exact", r__ != 0 || (wide) t == x__); } while (0)
/* in-place helper: aborts unless exact fits */
#define BUGP(text, exact, lo, hi, type, init, callstmt) do { \
	wide x__ = (exact); g_fits = x__ >= (wide)(lo) && x__ <= (wide)(hi); type t = (init); type *T = &t; \
	callstmt; \
	ENSURES(text ": exact or abort", g_fits && (wide) t == x__); } while (0)
#define LMAX RRR_LENGTH_MAX
#define BMAX RRR_BIGLENGTH_MAX

void p_conv(void) {
	uint64_t u = vf_u64(); int64_t s = vf_i64(); uint32_t l = vf_u32();
	unsigned what = vf_in8(0, 16);
	switch (what) {
	case 0: CONST("int_from_slength_bug_const", s, INT_MIN, INT_MAX, rrr_int_from_slength_bug_const(s)); break;
	case 1: ERR("int_from_biglength_err", u, 0, INT_MAX, int, 7, rrr_int_from_biglength_err(T, u)); break;
	case 2: CONST("int_from_biglength_bug_const", u, 0, INT_MAX, rrr_int_from_biglength_bug_const(u)); break;
	case 3: CONST("int_from_biglength_abort_const", u, 0, INT_MAX, rrr_int_from_biglength_abort_const(u)); break;
	case 4: ERR("int_from_length_err", l, 0, INT_MAX, int, 7, rrr_int_from_length_err(T, l)); break;
	case 5: ERR("length_from_slength_err", s, 0, LMAX, rrr_length, 7, rrr_length_from_slength_err(T, s)); break;
	case 6: CONST("length_from_slength_bug_const", s, 0, LMAX, rrr_length_from_slength_bug_const(s)); break;
	case 7: CONST("length_from_ssize_bug_const", s, 0, LMAX, rrr_length_from_ssize_bug_const(s)); break;
	case 8: CONST("u16_from_biglength_bug_const", u, 0, UINT16_MAX, rrr_u16_from_biglength_bug_const(u)); break;
	case 9: CONST("u16_from_slength_bug_const", s, 0, UINT16_MAX, rrr_u16_from_slength_bug_const(s)); break;
	case 10: ERR("length_from_biglength_err", u, 0, LMAX, rrr_length, 7, rrr_length_from_biglength_err(T, u)); break;
	case 11: CONST("length_from_biglength_bug_const", u, 0, LMAX, rrr_length_from_biglength_bug_const(u)); break;
	case 12: ERR("length_from_size_t_err", u, 0, LMAX, rrr_length, 7, rrr_length_from_size_t_err(T, u)); break;
	case 13: CONST("length_from_size_t_bug_const", u, 0, LMAX, rrr_length_from_size_t_bug_const(u)); break;
	case 14: CONST("size_from_biglength_trunc", u, 0, SIZE_MAX, rrr_size_from_biglength_trunc(u)); break;
	case 15: CONST("size_from_biglength_bug_const", u, 0, SIZE_MAX, rrr_size_from_biglength_bug_const(u)); break;
	case 16: ERR("size_from_biglength_err", u, 0, SIZE_MAX, size_t, 7, rrr_size_from_biglength_err(T, u)); break;
	}
	VF_REACH("conv end");
}

void p_add(void) {
	uint64_t u = vf_u64(), v = vf_u64(); uint32_t l = vf_u32(), m = vf_u32();
	unsigned what = vf_in8(0, 13);
	wide L = l, U = u;
	switch (what) {
	case 0: CONST("length_add_bug_const", L + m, 0, LMAX, rrr_length_add_bug_const(l, m)); break;
	case 1: ERR("length_add_err", L + m, 0, LMAX, rrr_length, l, rrr_length_add_err(T, m)); break;
	case 2: BUGP("length_add_bug", L + m, 0, LMAX, rrr_length, l, rrr_length_add_bug(T, m)); break;
	case 3: ERR("biglength_add_err", U + v, 0, BMAX, rrr_biglength, u, rrr_biglength_add_err(T, v)); break;
	case 4: BUGP("biglength_add_bug", U + v, 0, BMAX, rrr_biglength, u, rrr_biglength_add_bug(T, v)); break;
	case 5: ERR("length_inc_err", L + 1, 0, LMAX, rrr_length, l, rrr_length_inc_err(T)); break;
	case 6: BUGP("length_inc_bug", L + 1, 0, LMAX, rrr_length, l, rrr_length_inc_bug(T)); break;
	case 7: BUGP("biglength_inc_bug", U + 1, 0, BMAX, rrr_biglength, u, rrr_biglength_inc_bug(T)); break;
	case 8: BUGP("size_t_inc_bug", U + 1, 0, SIZE_MAX, size_t, u, rrr_size_t_inc_bug(T)); break;
	case 9: CONST("length_inc_bug_const", L + 1, 0, LMAX, rrr_length_inc_bug_const(l)); break;
	case 10: CONST("size_t_inc_bug_const", U + 1, 0, SIZE_MAX, rrr_size_t_inc_bug_const(u)); break;
	case 11: { rrr_length n = 0; BUGP("length_inc_bug_new_value", L + 1, 0, LMAX, rrr_length, l, n = rrr_length_inc_bug_new_value(T)); ENSURES("new_value returns the incremented value", n == L + 1); } break;
	case 12: { rrr_length n = 0; BUGP("length_inc_bug_old_value", L + 1, 0, LMAX, rrr_length, l, n = rrr_length_inc_bug_old_value(T)); ENSURES("old_value returns the value before", n == L); } break;
	case 13: REQUIRES(v <= INT64_MAX - LMAX); BUGP("checked counter add", L + v, 0, LMAX, rrr_slength, l, RRR_TYPES_CHECKED_LENGTH_COUNTER_ADD(*T, v)); break;
	}
	VF_REACH("add end");
}

void p_sub(void) {
	uint64_t u = vf_u64(), v = vf_u64(); uint32_t l = vf_u32(), m = vf_u32(); int64_t s = vf_i64(), t_ = vf_i64();
	unsigned what = vf_in8(0, 10);
	wide L = l, U = u, S = s;
	switch (what) {
	case 0: BUGP("length_sub_bug", L - m, 0, LMAX, rrr_length, l, rrr_length_sub_bug(T, m)); break;
	case 1: CONST("length_sub_bug_const", L - m, 0, LMAX, rrr_length_sub_bug_const(l, m)); break;
	case 2: BUGP("biglength_sub_bug", U - v, 0, BMAX, rrr_biglength, u, rrr_biglength_sub_bug(T, v)); break;
	case 3: { wide x = s < 0 ? (wide) -1 : U - s; BUGP("biglength_from_ssize_sub_bug", x, 0, BMAX, rrr_biglength, u, rrr_biglength_from_ssize_sub_bug(T, s)); } break;
	case 4: ERR("length_from_slength_sub_err", S - t_, 0, LMAX, rrr_length, 7, rrr_length_from_slength_sub_err(T, s, t_)); break;
	case 5: CONST("length_from_slength_sub_bug_const", S - t_, 0, LMAX, rrr_length_from_slength_sub_bug_const(s, t_)); break;
	case 6: CONST("length_from_biglength_sub_bug_const", U - v, 0, LMAX, rrr_length_from_biglength_sub_bug_const(u, v)); break;
	case 7: CONST("biglength_sub_bug_const", U - v, 0, BMAX, rrr_biglength_sub_bug_const(u, v)); break;
	case 8: BUGP("length_dec_bug", L - 1, 0, LMAX, rrr_length, l, rrr_length_dec_bug(T)); break;
	case 9: CONST("length_dec_bug_const", L - 1, 0, LMAX, rrr_length_dec_bug_const(l)); break;
	case 10: REQUIRES(v <= LMAX); BUGP("checked counter sub", L - v, 0, LMAX, rrr_slength, l, RRR_TYPES_CHECKED_LENGTH_COUNTER_SUB(*T, v)); break;
	}
	VF_REACH("sub end");
}

static void ptr_common(const void *p, const void *q, wide diff) {
	unsigned what = vf_in8(0, 2);
	switch (what) {
	case 0: ERR("length_from_ptr_sub_err", diff, 0, LMAX, rrr_length, 7, rrr_length_from_ptr_sub_err(T, p, q)); break;
	case 1: CONST("length_from_ptr_sub_bug_const", diff, 0, LMAX, rrr_length_from_ptr_sub_bug_const(p, q)); break;
	case 2: CONST("biglength_from_ptr_sub_bug_const", diff, 0, BMAX, rrr_biglength_from_ptr_sub_bug_const(p, q)); break;
	}
}
void p_ptr(void) {
#ifdef VF_PROOF
	/* two positions in (or one past) one object, as the language requires of compared pointers */
	uint64_t n = vf_u64(), i = vf_u64(), j = vf_u64();
	REQUIRES(n <= 0x7fffffffffffULL && i <= n && j <= n);
	char *o = vf_new(n);
	ptr_common(o + i, o + j, (wide) i - (wide) j);
	VF_REACH("ptr end");
#endif
}
void b_ptr(void) {
	/* addresses only: the functions do not dereference their arguments */
	uint64_t u = vf_in64(0, 0x7fffffffffffULL), v = vf_in64(0, 0x7fffffffffffULL);
	ptr_common((const void *) (uintptr_t) u, (const void *) (uintptr_t) v, (wide) u - (wide) v);
	VF_REACH("b_ptr end");
}

void p_mul(void) {
	uint32_t l = vf_u32(), m = vf_u32();
	BUGP("length_mul_bug", (uint64_t) l * m, 0, LMAX, rrr_length, l, rrr_length_mul_bug(T, m));
	VF_REACH("mul end");
}
static void mul_err(uint64_t u, uint64_t v) {
	unsigned __int128 x = (unsigned __int128) u * v; g_fits = x <= BMAX;
	rrr_biglength t = u;
	int r = rrr_biglength_mul_err(&t, v);
	ENSURES("biglength_mul_err: reports an error exactly when the product does not fit", (r == 0) == g_fits);
	ENSURES("biglength_mul_err: exact", r != 0 || t == x);
}
/* the left operand is one of the listed constants, the right one is any value */
void b_mul_err(void) {
	uint64_t v = vf_u64();
	switch (vf_in8(0, 5)) {
	case 0: mul_err(0, v); break;
	case 1: mul_err(1, v); break;
	case 2: mul_err(2, v); break;
	case 3: mul_err(1024 * 1024, v); break;
	case 4: mul_err(1ULL << 32, v); break;
	case 5: mul_err(UINT64_MAX, v); break;
	}
	VF_REACH("mul_err end");
}
void b_mul_err_native(void) {
	uint64_t u = vf_u64() >> vf_in8(0, 63), v = vf_u64() >> vf_in8(0, 63);
	mul_err(u, v);
	VF_REACH("mul_err native end");
}
