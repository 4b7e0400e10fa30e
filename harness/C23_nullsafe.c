//@ property C23
//@ proof p_new unwind=2 native=0 defs=-DVF_CPW_FIXED=0,-DVF_CPW_N=3 funcs=rrr_nullsafe_str_new_or_replace_raw,rrr_nullsafe_str_new_or_replace,rrr_nullsafe_str_dup,rrr_nullsafe_str_new_or_replace_empty,rrr_nullsafe_str_new_or_replace_raw_allocated
//@ proof p_set unwind=2 native=0 defs=-DVF_CPW_FIXED=0,-DVF_CPW_N=3 funcs=rrr_nullsafe_str_set,rrr_nullsafe_str_clear,rrr_nullsafe_str_set_allocated,rrr_nullsafe_str_move
//@ proof p_append unwind=2 native=0 defs=-DVF_CPW_FIXED=0,-DVF_CPW_N=3 funcs=rrr_nullsafe_str_append_raw,rrr_nullsafe_str_append,rrr_nullsafe_str_new_or_append_raw
//@ proof p_prepend unwind=2 native=0 defs=-DVF_CPW_FIXED=0,-DVF_CPW_N=3 funcs=rrr_nullsafe_str_prepend_raw
//@ proof p_out unwind=2 native=0 defs=-DVF_CPW_FIXED=0,-DVF_CPW_N=3 funcs=rrr_nullsafe_str_copyto,rrr_nullsafe_str_extract_append_null,rrr_nullsafe_str_with_raw_null_terminated_do
//@ proof p_strip unwind=2 native=0 defs=-DVF_CPW_FIXED=0,-DVF_CPW_N=3 funcs=rrr_nullsafe_str_util_output_strip_null_append_null_trim_raw_null_ok,rrr_nullsafe_str_output_strip_null_append_null_trim
//@ proof p_slices unwind=2 native=0 funcs=rrr_nullsafe_str_with_raw_do,__rrr_nullsafe_str_with_raw_do_const,rrr_nullsafe_str_with_raw_do_double_const,rrr_nullsafe_str_with_raw_truncated_do,rrr_nullsafe_str_with_tmp_str_do,rrr_nullsafe_str_with_raw_do_const_return_str,rrr_nullsafe_str_len,rrr_nullsafe_str_isset
//@ proof p_compare unwind=2 native=0 funcs=rrr_nullsafe_str_begins_with,rrr_nullsafe_str_cmpto,rrr_nullsafe_str_cmpto_case
//@ proof p_chr unwind=2 native=0 funcs=rrr_nullsafe_str_chr,rrr_nullsafe_str_has_null
//@ proof p_split unwind=2 native=0 funcs=rrr_nullsafe_str_split_raw,rrr_nullsafe_str_split
//@ proof p_str unwind=2 native=0 funcs=rrr_nullsafe_str_str,rrr_nullsafe_str_str_raw
//@ proof p_trim unwind=2 native=0 funcs=rrr_nullsafe_str_trim
//@ proof p_each unwind=2 native=0 funcs=rrr_nullsafe_str_foreach_byte_do,rrr_nullsafe_str_tolower
//@ bounded b_strings unwind=30 bound=12 fbound=40 nobmc=1 maxlen=500 always=1
//@ assume a string searched in has a text pointer (the empty string without one is covered by the random check only); memcmp, strlen and tolower have their C library contracts; a string handed to an operation which reallocates it does not share memory with the other arguments; searched strings are smaller than 4 GB (the code aborts otherwise)
#define VF_MEMCPY_WITNESS
#include "vf.h"
#include "rrr_types.h"
#include <strings.h>

#ifdef VF_PROOF
/* library contracts */
static uint64_t g_p, g_last, g_hl, g_n, g_start; static const char *g_h; static int g_called, g_stop, g_matched; static size_t g_dfp; static int g_any;
static size_t g_eq_w, g_df; static const void *g_cmp_a, *g_cmp_b; static size_t g_cmp_n;
static int vf_memcmp(const void *a, const void *b, size_t n) {
	if (n == 0) return 0;
	CALLEE_PRE("memcmp readable", VF_R_OK(a, n) && VF_R_OK(b, n));
	if (nondet_bool()) { ASSUME(g_eq_w >= n || ((const char *) a)[g_eq_w] == ((const char *) b)[g_eq_w]); return 0; }
	g_df = nondet_u64(); ASSUME(g_df < n && ((const char *) a)[g_df] != ((const char *) b)[g_df]);
	if (a == (const void *) (g_h + g_p)) g_dfp = g_df;
	return 1;
}
#define memcmp(a, b, n) vf_memcmp(a, b, n)
static size_t g_strlen; static const char *g_cstr;
static size_t vf_strlen(const char *s) { CALLEE_PRE("strlen of the given text", s == g_cstr); return g_strlen; }
#define strlen(s) vf_strlen(s)
static int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
#define tolower(c) lower(c)
static char g_ov; static uint64_t g_k, g_oldlen;
#endif
#include "helpers/nullsafe_str.c"

VF_LOOP(rrr_nullsafe_str_chr, 0, var(i); inv(none_before, i <= nullsafe->len && (g_p >= i || ((const char *) nullsafe->str)[g_p] != c)); dec(nullsafe->len - i))
VF_LOOP(rrr_nullsafe_str_has_null_raw, 0, var(i); inv(none_before, i <= len && (g_p >= i || ((const char *) str)[g_p] != 0)); dec(len - i))
VF_LOOP(rrr_nullsafe_str_cmpto, 0, var(i); inv(equal_so_far, i <= str_len && (g_p >= i || ((const char *) nullsafe->str)[g_p] == str[g_p])); at(g_n = i); dec(str_len - i))
VF_LOOP(rrr_nullsafe_str_cmpto_case, 0, var(i); inv(equal_so_far, i <= str_len && (g_p >= i || (char) lower(((const char *) nullsafe->str)[g_p]) == (char) lower(str[g_p]))); at(g_n = i); dec(str_len - i))
VF_LOOP(rrr_nullsafe_str_foreach_byte_do, 0, var(i); var(g_n); var(ret); var(g_stop); inv(each_once, i <= nullsafe->len && g_n == i && !g_stop && ret == 0); dec(nullsafe->len - i))
VF_LOOP(rrr_nullsafe_str_tolower, 0, var(i); mem(nullsafe->str, nullsafe->len); inv(lowered, i <= nullsafe->len && (g_p >= nullsafe->len || ((char *) nullsafe->str)[g_p] == (g_p < i ? (char) lower(g_ov) : g_ov))); dec(nullsafe->len - i))
VF_LOOP(rrr_nullsafe_str_trim, 0, var(i); lval(nullsafe->len); mem(str, g_oldlen);
	inv(spaces_cut, nullsafe->len <= g_oldlen && i == nullsafe->len - 1 && (g_p >= g_oldlen || (g_p < nullsafe->len ? str[g_p] == g_ov : g_ov == ' ')));
	dec(nullsafe->len))
VF_LOOP(rrr_nullsafe_str_util_output_strip_null_append_null_trim_raw_null_ok, 0, var(i); mem(buf, get_size);
	inv(no_null, i <= get_size && (g_p >= get_size || buf[g_p] == (g_p < i && g_ov == 0 ? 'N' : g_ov)));
	dec(get_size - i))
/* chunks: g_start is where the current one begins; for the arbitrary position g_p no separator has been passed over */
VF_LOOP(rrr_nullsafe_str_split_raw, 0, var(i); var(start_pos); var(ret); var(g_start); var(g_stop); var(g_matched);
	inv(position, i <= nullsafe->len && start_pos <= i && start_pos == g_start && !g_stop && ret == 0);
	inv(chunk_has_no_separator, g_p < start_pos || g_p >= i || ((const char *) nullsafe->str)[g_p] != c);
	inv(chunks_end_at_separators, start_pos == 0 || ((const char *) nullsafe->str)[start_pos - 1] == c);
	inv(last, g_matched == (i == nullsafe->len && i > 0));
	dec(nullsafe->len - i))
VF_LOOP(rrr_nullsafe_str_str, 0, ptr(start, haystack->str); var(ret); var(g_called); var(g_last); var(g_any); var(g_stop); var(g_df); var(g_dfp); var(g_matched);
	inv(position, VF_SAME(start, haystack->str) && VF_OFF(start) <= g_hl - needle->len + 1 && !g_stop && ret == 0);
	inv(in_order, !g_any || g_last < VF_OFF(start));
	inv(witness, VF_OFF(start) <= g_p ? g_called == 0 : ((g_called == 1 && (g_eq_w >= needle->len || ((const char *) needle->str)[g_eq_w] == g_h[g_p + g_eq_w])) || (g_called == 0 && g_dfp < needle->len && ((const char *) needle->str)[g_dfp] != g_h[g_p + g_dfp])));
	at(g_df = 0; if (VF_OFF(start) == g_p) g_dfp = 0);
	dec(g_hl + 1 - VF_OFF(start)))

#ifdef VF_PROOF
static struct rrr_nullsafe_str *any_str(void) {
	struct rrr_nullsafe_str *s = vf_new(sizeof(*s));
	uint64_t cap = vf_in64(0, 0x3fffffffffffULL);
	s->str = nondet_bool() ? vf_newbuf(cap) : NULL;
	s->len = nondet_u64();
	REQUIRES(s->len <= cap && (s->str != NULL || s->len == 0));
	return s;
}
static char at(const struct rrr_nullsafe_str *s, uint64_t i) { return ((const char *) s->str)[i]; }
#endif
void p_new(void) {
#ifdef VF_PROOF
	struct rrr_nullsafe_str *src = any_str(), *r = nondet_bool() ? any_str() : NULL, *r0 = r;
	g_p = nondet_u64(); vf_cpw[0] = g_p;
	int op = nondet_u32() % 4, ret; void *raw = NULL; char *raw0 = NULL; uint64_t len = src->len; char c = g_p < len ? at(src, g_p) : 0;
	if (op == 0) ret = rrr_nullsafe_str_new_or_replace(&r, src);
	else if (op == 1) ret = rrr_nullsafe_str_dup(&r, src);
	else if (op == 2) { ret = rrr_nullsafe_str_new_or_replace_empty(&r); len = 0; }
	else { raw = src->str; raw0 = raw; ret = rrr_nullsafe_str_new_or_replace_raw_allocated(&r, &raw, len); }
	if (ret == 0) {
		ENSURES("a replaced string is the same object", r != NULL && (r0 == NULL || r == r0));
		ENSURES("exactly the given bytes", r->len == len && (g_p >= len || at(r, g_p) == c));
		ENSURES("the memory belongs to the string", r->len == 0 || VF_R_OK(r->str, r->len));
		if (op == 3) ENSURES("given memory is taken over", r->str == raw0 && raw == NULL);
		else ENSURES("a copy", len == 0 || (r->str != src->str && src->len == len));
		VF_REACH("new end");
	}
	else {
		ENSURES("failure: nothing new, the old string is still there and is empty", r == r0 && (r == NULL || (VF_R_OK(r, sizeof(*r)) && (op == 3 || op == 2 || (r->len == 0 && r->str == NULL)))));
		if (op == 3) ENSURES("failure: given memory stays with the caller", raw == raw0);
	}
#endif
}
void p_set(void) {
#ifdef VF_PROOF
	struct rrr_nullsafe_str *s = any_str(), *t = any_str(), *s0 = s;
	g_p = nondet_u64(); vf_cpw[0] = g_p;
	uint64_t len = t->len; char c = g_p < len ? at(t, g_p) : 0; char *tp = t->str;
	int op = nondet_u32() % 4, ret = 0;
	if (op == 0) ret = rrr_nullsafe_str_set(s, t->str, t->len);
	else if (op == 1) { rrr_nullsafe_str_clear(s); len = 0; }
	else if (op == 2) rrr_nullsafe_str_set_allocated(s, &t->str, t->len);
	else rrr_nullsafe_str_move(&s, &t);
	if (ret == 0) ENSURES("exactly the given bytes", s->len == len && (g_p >= len || at(s, g_p) == c));
	else ENSURES("failure leaves an empty string", s->len == 0);
	if (op == 2) ENSURES("given memory is taken over", s->str == tp && t->str == NULL);
	if (op == 3) ENSURES("moved", t == NULL && s != s0);
	VF_REACH("set end");
#endif
}
void p_append(void) {
#ifdef VF_PROOF
	struct rrr_nullsafe_str *s = any_str(), *t = any_str(); int fresh = nondet_bool();
	g_p = nondet_u64();
	uint64_t a = s->len, b = t->len; char c = g_p < a ? at(s, g_p) : g_p - a < b ? at(t, g_p - a) : 0;
	vf_cpw[0] = g_p; vf_cpw[1] = g_p - a; vf_cpw[2] = g_p;
	int ret;
	if (fresh) { struct rrr_nullsafe_str *n = NULL; ret = rrr_nullsafe_str_new_or_append_raw(&n, t->str, t->len);
		if (ret == 0) { char d = g_p < b ? at(t, g_p) : 0; ENSURES("new with the bytes", n->len == b && (g_p >= b || at(n, g_p) == d)); } }
	else {
		ret = nondet_bool() ? rrr_nullsafe_str_append(s, t) : rrr_nullsafe_str_append_raw(s, t->str, t->len);
		if (ret == 0) ENSURES("the old bytes followed by the new ones", s->len == a + b && (g_p >= a + b || at(s, g_p) == c));
		else ENSURES("failure changes nothing", s->len == a && (g_p >= a || at(s, g_p) == c));
	}
	VF_REACH("append end");
#endif
}
void p_prepend(void) {
#ifdef VF_PROOF
	struct rrr_nullsafe_str *s = any_str(), *t = any_str();
	g_p = nondet_u64();
	uint64_t a = s->len, b = t->len; char c = g_p < b ? at(t, g_p) : g_p - b < a ? at(s, g_p - b) : 0, o = g_p < a ? at(s, g_p) : 0;
	vf_cpw[0] = g_p; vf_cpw[1] = g_p - b;
	int ret = rrr_nullsafe_str_prepend_raw(s, t->str, t->len);
	if (ret == 0) ENSURES("the new bytes followed by the old ones", s->len == a + b && (g_p >= a + b || at(s, g_p) == c));
	else ENSURES("failure changes nothing", s->len == a && (g_p >= a || at(s, g_p) == o));
	VF_REACH("prepend end");
#endif
}
#ifdef VF_PROOF
static int cb_term(const char *s, void *arg) {
	g_called++;
	CALLEE_PRE("NUL-terminated copy", arg == &g_called && VF_R_OK(s, g_n + 1) && s[g_n] == 0 && (g_p >= g_n || s[g_p] == g_ov));
	return 33;
}
#endif
void p_out(void) {
#ifdef VF_PROOF
	struct rrr_nullsafe_str *s = nondet_bool() ? any_str() : NULL;
	g_p = nondet_u64(); vf_cpw[0] = g_p; g_n = s ? s->len : 0; g_ov = g_p < g_n ? at(s, g_p) : 0; g_called = 0;
	int op = nondet_u32() % 3;
	if (op == 0) {
		uint64_t n = vf_in64(0, 0x3fffffffffffULL), w = nondet_u64(); char *t = vf_newbuf(n);
		uint64_t k = nondet_u64(); REQUIRES(k < n); char o = t[k]; vf_cpw[0] = k; g_ov = k < g_n ? at(s, k) : 0;
		rrr_nullsafe_str_copyto(&w, t, n, s);
		ENSURES("as many bytes as fit, in order, none beyond", w == (g_n < n ? g_n : n) && t[k] == (k < w ? g_ov : o));
	}
	else if (op == 1) {
		char *r = NULL;
		if (rrr_nullsafe_str_extract_append_null(&r, s) == 0) ENSURES("NUL-terminated copy", VF_R_OK(r, g_n + 1) && r[g_n] == 0 && (g_p >= g_n || r[g_p] == g_ov));
		else ENSURES("failure gives nothing", r == NULL);
	}
	else {
		int ret = rrr_nullsafe_str_with_raw_null_terminated_do(s, cb_term, &g_called);
		ENSURES("called once with a copy, unless memory runs out", g_called == 1 ? ret == 33 : g_called == 0 && ret == 1);
	}
	VF_REACH("out end");
#endif
}
void p_strip(void) {
#ifdef VF_PROOF
	struct rrr_nullsafe_str *s = nondet_bool() ? any_str() : NULL;
	uint64_t n = vf_in64(1, 0x3fffffffffffULL); char *t = vf_newbuf(n);
	g_n = s ? s->len : 0; if (g_n > n - 1) g_n = n - 1;
	g_p = nondet_u64(); vf_cpw[0] = g_p; g_ov = g_p < g_n ? at(s, g_p) : 0;
	rrr_nullsafe_str_output_strip_null_append_null_trim(s, t, n);
	ENSURES("NUL-terminated, cut to the size, NUL bytes replaced", t[g_n] == 0 && (g_p >= g_n || t[g_p] == (g_ov ? g_ov : 'N')));
	VF_REACH("strip end");
#endif
}
#ifdef VF_PROOF
static const char *g_sp; static uint64_t g_sl, g_setlen; static int g_cret;
static int cb_raw(rrr_nullsafe_len *len, void *str, void *arg) { g_called++; CALLEE_PRE("the bytes", *len == g_sl && (g_sl == 0 || str == g_sp) && arg == &g_called && str != NULL); *len = g_setlen; return g_cret; }
static int cb_const(const void *str, rrr_nullsafe_len len, void *arg) { g_called++; CALLEE_PRE("the bytes", len == g_sl && (g_sl == 0 || str == g_sp) && arg == &g_called); return g_cret; }
static char *cb_const_str(const void *str, rrr_nullsafe_len len, void *arg) { cb_const(str, len, arg); return (char *) g_sp; }
static int cb_tmp(const struct rrr_nullsafe_str *s, void *arg) { return cb_const(s->str, s->len, arg); }
static int cb_double(const void *a, rrr_nullsafe_len al, const void *b, rrr_nullsafe_len bl, void *arg) { CALLEE_PRE("the second string", bl == g_hl && (bl == 0 || b == g_h)); return cb_const(a, al, arg); }
#endif
void p_slices(void) {
#ifdef VF_PROOF
	struct rrr_nullsafe_str *s = nondet_bool() ? any_str() : NULL, *t = nondet_bool() ? any_str() : NULL;
	g_sl = s ? s->len : 0; g_sp = s ? s->str : NULL; g_hl = t ? t->len : 0; g_h = t ? t->str : NULL; g_called = 0; g_cret = nondet_u32();
	ENSURES("length", rrr_nullsafe_str_len(s) == g_sl && (rrr_nullsafe_str_isset(s) != 0) == (g_sl != 0));
	int op = nondet_u32() % 7, ret = g_cret;
	if (op == 0) {
		g_setlen = nondet_u64(); REQUIRES(g_setlen <= g_sl); uint64_t o = g_sl;
		ret = rrr_nullsafe_str_with_raw_do(s, cb_raw, &g_called);
		if (s) ENSURES("length set by the callback, unless it fails", s->len == (g_cret ? o : g_setlen) && s->str == g_sp);
	}
	else if (op == 1) ret = rrr_nullsafe_str_with_raw_do_const(s, cb_const, &g_called);
	else if (op == 2) { uint64_t o = nondet_u64(); REQUIRES(o <= g_sl); g_sp += o; g_sl -= o; ret = rrr_nullsafe_str_with_raw_do_const_offset(s, o, cb_const, &g_called); }
	else if (op == 3) ret = rrr_nullsafe_str_with_raw_do_double_const(s, t, cb_double, &g_called);
	else if (op == 4) { REQUIRES(s != NULL); uint64_t o = nondet_u64(), l = nondet_u64(); REQUIRES(o <= g_sl && l <= g_sl - o); g_sp += o; g_sl = l; ret = rrr_nullsafe_str_with_raw_truncated_do(s, o, l, cb_const, &g_called); }
	else if (op == 5) ret = rrr_nullsafe_str_with_tmp_str_do(g_sp, g_sl, cb_tmp, &g_called);
	else { REQUIRES(s != NULL); ENSURES("string result", rrr_nullsafe_str_with_raw_do_const_return_str(s, cb_const_str, &g_called) == g_sp); }
	ENSURES("called exactly once, result returned", g_called == 1 && ret == g_cret);
	VF_REACH("slices end");
#endif
}
void p_compare(void) {
#ifdef VF_PROOF
	struct rrr_nullsafe_str *s = any_str(), *t = any_str();
	g_p = nondet_u64(); g_eq_w = g_p; g_df = nondet_u64(); g_n = nondet_u64();
	int op = nondet_u32() % 3;
	if (op == 0) {
		int r = rrr_nullsafe_str_begins_with(s, t);
		if (r) ENSURES("begins with: every byte equal", s->len >= t->len && (g_p >= t->len || at(s, g_p) == at(t, g_p)));
		else ENSURES("does not begin with: too short or a byte differs", s->len < t->len || (g_df < t->len && at(s, g_df) != at(t, g_df)));
	}
	else {
		g_strlen = vf_in64(0, 0x3fffffffffffULL); char *c = vf_newbuf(g_strlen + 1); g_cstr = c;
		int r = op == 1 ? rrr_nullsafe_str_cmpto(s, c) : rrr_nullsafe_str_cmpto_case(s, c);
		if (r == 0) ENSURES("equal: every byte equal", s->len == g_strlen && (g_p >= s->len || (op == 1 ? at(s, g_p) == c[g_p] : (char) lower(at(s, g_p)) == (char) lower(c[g_p]))));
		else ENSURES("not equal: size or a byte differs", s->len != g_strlen || (g_n < g_strlen && (op == 1 ? at(s, g_n) != c[g_n] : (char) lower(at(s, g_n)) != (char) lower(c[g_n]))));
		ENSURES("nothing is not equal to anything", rrr_nullsafe_str_cmpto(NULL, c) != 0 && rrr_nullsafe_str_cmpto_case(NULL, c) != 0);
	}
	VF_REACH("compare end");
#endif
}
#ifdef VF_PROOF
static char g_c;
static int cb_chr(const void *start, rrr_nullsafe_len n, void *arg) {
	g_called++; uint64_t i = g_hl - n;
	CALLEE_PRE("position of the character", n <= g_hl && n > 0 && start == g_h + i && *(const char *) start == g_c && arg == &g_called);
	CALLEE_PRE("the first one", g_p >= i || g_h[g_p] != g_c);
	return 44;
}
#endif
void p_chr(void) {
#ifdef VF_PROOF
	struct rrr_nullsafe_str *s = any_str(); g_h = s->str; g_hl = s->len; g_c = (char) nondet_u8(); g_p = nondet_u64(); g_called = 0;
	if (nondet_bool()) {
		int r = rrr_nullsafe_str_chr(s, g_c, cb_chr, &g_called);
		ENSURES("called at most once, result returned", g_called == 0 ? r == 0 : g_called == 1 && r == 44);
		ENSURES("not called: the character does not occur", g_called || g_p >= g_hl || g_h[g_p] != g_c);
	}
	else {
		int r = rrr_nullsafe_str_has_null(s);
		ENSURES("no NUL byte", r || g_p >= g_hl || g_h[g_p] != 0);
		/* a NUL byte is only reported at one: the loop stops there, so every byte before it is not NUL */
	}
	VF_REACH("chr end");
#endif
}
#ifdef VF_PROOF
static int cb_split(const void *start, rrr_nullsafe_len n, int last, void *arg) {
	CALLEE_PRE("next chunk begins after the previous separator", !g_stop && !g_matched && start == g_h + g_start && n <= g_hl - g_start && arg == &g_called);
	CALLEE_PRE("chunk contains no separator", g_p < g_start || g_p >= g_start + n || g_h[g_p] != g_c);
	CALLEE_PRE("chunk ends at a separator, the last one at the end", last ? g_start + n == g_hl : (g_start + n < g_hl && g_h[g_start + n] == g_c));
	if (last) g_matched = 1; else g_start += n + 1;
	if (g_cret && nondet_bool()) { g_stop = 1; return g_cret; }
	return 0;
}
static int cb_split_s(const struct rrr_nullsafe_str *s, int last, void *arg) { return cb_split(s->str, s->len, last, arg); }
#endif
void p_split(void) {
#ifdef VF_PROOF
	struct rrr_nullsafe_str *s = any_str(); g_h = s->str; g_hl = s->len; g_c = (char) nondet_u8(); g_p = nondet_u64(); g_start = 0; g_stop = g_matched = 0; g_cret = nondet_u32();
	int r = nondet_bool() ? rrr_nullsafe_str_split_raw(s, g_c, cb_split, &g_called) : rrr_nullsafe_str_split(s, g_c, cb_split_s, &g_called);
	ENSURES("stops with the result of the callback", r == (g_stop ? g_cret : 0));
	ENSURES("everything is given out, with one last chunk", g_stop || g_matched == (g_hl > 0));
	VF_REACH("split end");
#endif
}
#ifdef VF_PROOF
static const struct rrr_nullsafe_str *g_hs, *g_ns;
static int cb_str(const struct rrr_nullsafe_str *h, const struct rrr_nullsafe_str *n, const struct rrr_nullsafe_str *at, const struct rrr_nullsafe_str *after, void *arg) {
	uint64_t pos = g_hl - at->len;
	CALLEE_PRE("find: arguments", n == g_ns && h->str == g_hs->str && h->len == g_hl && arg == &g_called && !g_stop);
	CALLEE_PRE("find: rest from and after the match", at->len <= g_hl && at->len >= g_ns->len && at->str == g_hs->str + pos && after->len == at->len - g_ns->len && after->str == at->str + g_ns->len);
	CALLEE_PRE("find: in order", !g_any || g_last < pos);
	CALLEE_PRE("find: it is a match", g_eq_w >= g_ns->len || g_h[pos + g_eq_w] == ((const char *) g_ns->str)[g_eq_w]);
	g_any = 1; g_last = pos;
	if (pos == g_p) g_called++;
	if (g_cret && nondet_bool()) { g_stop = 1; return g_cret; }
	return 0;
}
#endif
void p_str(void) {
#ifdef VF_PROOF
	struct rrr_nullsafe_str *s = any_str(), *t = any_str();
	REQUIRES(s->str != NULL && s->len <= 0xffffffffULL && (t->len || VF_R_OK(s->str, s->len + 1)));
	g_hs = s; g_ns = t; g_h = s->str; g_hl = s->len; g_called = g_any = g_stop = 0; g_cret = nondet_u32(); g_df = 0; g_eq_w = nondet_u64();
	g_p = nondet_u64(); REQUIRES(t->len <= s->len && g_p <= s->len - t->len);
	int r = nondet_bool() ? rrr_nullsafe_str_str(s, t, cb_str, &g_called) : rrr_nullsafe_str_str_raw(s->str, s->len, t, cb_str, &g_called);
	ENSURES("stops with the result of the callback", r == (g_stop ? g_cret : 0));
	if (!g_stop) ENSURES("an arbitrary position is reported once exactly when it matches", g_called == 1 || (g_called == 0 && g_dfp < t->len && ((const char *) t->str)[g_dfp] != g_h[g_p + g_dfp]));
	VF_REACH("str end");
#endif
}
void p_trim(void) {
#ifdef VF_PROOF
	struct rrr_nullsafe_str *s = any_str(); g_oldlen = s->len; g_p = nondet_u64(); g_ov = g_p < s->len ? at(s, g_p) : 0;
	rrr_nullsafe_str_trim(s);
	ENSURES("only spaces at the end are cut, all of them", s->len <= g_oldlen && (g_p >= g_oldlen || (g_p < s->len ? at(s, g_p) == g_ov : g_ov == ' ')) && (s->len == 0 || at(s, s->len - 1) != ' '));
	VF_REACH("trim end");
#endif
}
#ifdef VF_PROOF
static int cb_each(char b, void *arg) {
	CALLEE_PRE("next byte", !g_stop && g_n < g_hl && b == g_h[g_n] && arg == &g_called);
	g_n++;
	if (g_cret && nondet_bool()) { g_stop = 1; return g_cret; }
	return 0;
}
#endif
void p_each(void) {
#ifdef VF_PROOF
	struct rrr_nullsafe_str *s = any_str(); g_h = s->str; g_hl = s->len; g_n = 0; g_stop = 0; g_cret = nondet_u32(); g_p = nondet_u64();
	if (nondet_bool()) {
		int r = rrr_nullsafe_str_foreach_byte_do(s, cb_each, &g_called);
		ENSURES("every byte once until the callback stops", r == (g_stop ? g_cret : 0) && (g_stop || g_n == g_hl));
	}
	else {
		g_ov = g_p < g_hl ? at(s, g_p) : 0;
		rrr_nullsafe_str_tolower(s);
		ENSURES("lower case", s->len == g_hl && (g_p >= g_hl || at(s, g_p) == (char) lower(g_ov)));
	}
	VF_REACH("each end");
#endif
}

/* bounded: random operations against plain byte arrays */
#ifndef VF_PROOF
struct model { unsigned n; unsigned char b[1024]; };
static const struct model *M, *N2; static unsigned fpos, fcnt; static struct model acc; static const struct rrr_nullsafe_str *H;
static int n_cb_find(const struct rrr_nullsafe_str *h, const struct rrr_nullsafe_str *n, const struct rrr_nullsafe_str *at, const struct rrr_nullsafe_str *after, void *arg) {
	while (fpos + N2->n <= M->n && (N2->n && memcmp(M->b + fpos, N2->b, N2->n))) fpos++;
	ENSURES("match", fpos + N2->n <= M->n && rrr_nullsafe_str_len(at) == M->n - fpos && rrr_nullsafe_str_len(after) == M->n - fpos - N2->n);
	fpos++; fcnt++;
	return 0;
}
static int n_cb_split(const struct rrr_nullsafe_str *s, int last, void *arg) {
	memcpy(acc.b + acc.n, s->str, s->len); for (unsigned i = 0; i < s->len; i++) ENSURES("no separator", acc.b[acc.n + i] != *(unsigned char *) arg);
	acc.n += s->len; if (!last) acc.b[acc.n++] = *(unsigned char *) arg; fcnt += last;
	return 0;
}
static int n_cb_chr(const void *p, rrr_nullsafe_len n, void *arg) { fpos = M->n - n; fcnt++; return 7; }
static int n_cb_term(const char *s, void *arg) { ENSURES("terminated copy", (M->n == 0 || memcmp(s, M->b, M->n) == 0) && s[M->n] == 0); return 0; }
#endif
void b_strings(void) {
#ifndef VF_PROOF
	static struct model m, o; m.n = 0;
	struct rrr_nullsafe_str *s = NULL, *t = NULL;
	if (rrr_nullsafe_str_new_or_replace_empty(&s)) return;
	unsigned steps = vf_in8(0, 10);
	for (unsigned k = 0; k < steps; k++) {
		uint8_t op = vf_in8(0, 11); o.n = vf_in8(0, VF_BOUND); for (unsigned i = 0; i < o.n; i++) { uint8_t q = vf_in8(0, 4); o.b[i] = q == 0 ? vf_u8() : q == 1 ? ' ' : q == 2 ? 'a' : q == 3 ? 0 : 'B'; }
		char *raw = malloc(o.n ? o.n : 1); memcpy(raw, o.b, o.n);
		if (rrr_nullsafe_str_new_or_replace_raw(&t, raw, o.n)) return;
		M = &m; N2 = &o; H = s; fcnt = 0; fpos = 0;
		switch (op) {
			case 0: ENSURES("append", rrr_nullsafe_str_append_raw(s, raw, o.n) == 0); memcpy(m.b + m.n, o.b, o.n); m.n += o.n; break;
			case 1: ENSURES("append str", rrr_nullsafe_str_append(s, t) == 0); memcpy(m.b + m.n, o.b, o.n); m.n += o.n; break;
			case 2: ENSURES("prepend", rrr_nullsafe_str_prepend_raw(s, raw, o.n) == 0); memmove(m.b + o.n, m.b, m.n); memcpy(m.b, o.b, o.n); m.n += o.n; break;
			case 3: ENSURES("set", rrr_nullsafe_str_set(s, raw, o.n) == 0); m = o; break;
			case 4: rrr_nullsafe_str_trim(s); while (m.n && m.b[m.n - 1] == ' ') m.n--; break;
			case 5: {
				int r = rrr_nullsafe_str_str(s, t, n_cb_find, NULL); unsigned c = 0;
				for (unsigned i = 0; i + o.n <= m.n; i++) c += memcmp(m.b + i, o.b, o.n) == 0;
				ENSURES("every match found", r == 0 && fcnt == c); break; }
			case 6: { unsigned char sep = o.n ? o.b[0] : 'a'; acc.n = 0;
				ENSURES("split", rrr_nullsafe_str_split(s, (char) sep, n_cb_split, &sep) == 0 && acc.n == m.n && memcmp(acc.b, m.b, m.n) == 0 && fcnt == (m.n > 0)); break; }
			case 7: { int c = o.n ? o.b[0] : 'a'; unsigned char *p = memchr(m.b, c, m.n); int r = rrr_nullsafe_str_chr(s, (char) c, n_cb_chr, NULL);
				ENSURES("chr", p ? r == 7 && fcnt == 1 && fpos == p - m.b : r == 0 && fcnt == 0);
				ENSURES("has null", (rrr_nullsafe_str_has_null(s) != 0) == (memchr(m.b, 0, m.n) != NULL)); break; }
			case 8: ENSURES("begins with", (rrr_nullsafe_str_begins_with(s, t) != 0) == (m.n >= o.n && memcmp(m.b, o.b, o.n) == 0)); break;
			case 9: { char z[256]; memcpy(z, o.b, o.n); z[o.n] = 0; unsigned zl = strlen(z); if (vf_bool() && m.n < 200 ) { memcpy(z, m.b, m.n); z[m.n] = 0; zl = strlen(z); if (zl && vf_bool()) z[0] ^= 0x20; }
				ENSURES("compare", (rrr_nullsafe_str_cmpto(s, z) == 0) == (zl == m.n && memcmp(z, m.b, zl) == 0));
				int eq = zl == m.n; for (unsigned i = 0; i < zl && eq; i++) eq = tolower((char) z[i]) == tolower((char) m.b[i]);
				ENSURES("compare without case", (rrr_nullsafe_str_cmpto_case(s, z) == 0) == eq); break; }
			case 10: { unsigned n = vf_in8(1, 60); char *z = malloc(n); rrr_nullsafe_str_output_strip_null_append_null_trim(s, z, n); unsigned w = m.n < n - 1 ? m.n : n - 1;
				for (unsigned i = 0; i < w; i++) ENSURES("output", (unsigned char) z[i] == (m.b[i] ? m.b[i] : 'N')); ENSURES("terminated", z[w] == 0);
				rrr_nullsafe_len ww; rrr_nullsafe_str_copyto(&ww, z, n, s); w = m.n < n ? m.n : n; ENSURES("copyto", ww == w && (w == 0 || memcmp(z, m.b, w) == 0)); free(z); break; }
			case 11: { const char set[3] = {' ', 'a', 0}; unsigned sn = vf_in8(0, 3); rrr_nullsafe_str_trim_set(s, set, sn); while (m.n && sn && memchr(set, m.b[m.n - 1], sn)) m.n--;
				ENSURES("terminated", rrr_nullsafe_str_with_raw_null_terminated_do(s, n_cb_term, NULL) == 0); break; }
		}
		ENSURES("content", rrr_nullsafe_str_len(s) == m.n && (m.n == 0 || memcmp(s->str, m.b, m.n) == 0));
		ENSURES("the other string is unchanged", rrr_nullsafe_str_len(t) == o.n && (o.n == 0 || memcmp(t->str, o.b, o.n) == 0));
		free(raw);
	}
	rrr_nullsafe_str_destroy_if_not_null(&s); rrr_nullsafe_str_destroy_if_not_null(&t);
	ENSURES("destroyed", s == NULL && t == NULL);
#endif
}
