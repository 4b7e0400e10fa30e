//@ property C04
//@ proof p_get_character unwind=5 funcs=rrr_utf8_get_character,__rrr_utf8_get_character_continue
//@ proof p_validate unwind=2 funcs=rrr_utf8_validate native=0
//@ proof p_iterate unwind=2 funcs=rrr_utf8_validate_and_iterate native=0
//@ bounded b_get_character unwind=10 bound=8
//@ bounded b_validate unwind=10 bound=7 fbound=24
//@ bounded b_iterate unwind=10 bound=6 fbound=24
//@ assume the iterate callback is any function of the character and its argument that returns any int and does not write the buffer
#include "vf.h"
#include "rrr_types.h"
#include "util/utf8.h"

/* specification: length of the well-formed sequence at b (Unicode 3.9, table 3-7), 0 = none */
static unsigned spec_len(const unsigned char *b, size_t n) {
	if (n < 1) return 0;
	if (b[0] < 0x80) return 1;
	if (n < 2) return 0;
	if (b[0] >= 0xC2 && b[0] <= 0xDF) return (b[1] >> 6) == 2 ? 2 : 0;
	if (n < 3) return 0;
	if ((b[0] >> 4) == 0xE) {
		if ((b[1] >> 6) != 2 || (b[2] >> 6) != 2) return 0;
		uint32_t cp = ((uint32_t)(b[0] & 15) << 12) | ((uint32_t)(b[1] & 63) << 6) | (b[2] & 63);
		return cp >= 0x800 && !(cp >= 0xD800 && cp <= 0xDFFF) ? 3 : 0;
	}
	if (n < 4) return 0;
	if ((b[0] >> 3) == 0x1E) {
		if ((b[1] >> 6) != 2 || (b[2] >> 6) != 2 || (b[3] >> 6) != 2) return 0;
		uint32_t cp = ((uint32_t)(b[0] & 7) << 18) | ((uint32_t)(b[1] & 63) << 12) | ((uint32_t)(b[2] & 63) << 6) | (b[3] & 63);
		return cp >= 0x10000 && cp <= 0x10FFFF ? 4 : 0;
	}
	return 0;
}
static uint32_t spec_cp(const unsigned char *b, unsigned l) {
	if (l == 1) return b[0];
	if (l == 2) return ((uint32_t)(b[0] & 31) << 6) | (b[1] & 63);
	if (l == 3) return ((uint32_t)(b[0] & 15) << 12) | ((uint32_t)(b[1] & 63) << 6) | (b[2] & 63);
	return ((uint32_t)(b[0] & 7) << 18) | ((uint32_t)(b[1] & 63) << 12) | ((uint32_t)(b[2] & 63) << 6) | (b[3] & 63);
}

static int cb_ret; static size_t cb_n; static uint32_t cb_chars[64]; static void *cb_arg; static size_t cb_stop;
#ifdef VF_PROOF
/* contract of rrr_utf8_get_character for its callers; ghost: chain of characters */
static const char *g_buf, *g_end;
static size_t g_pos, g_len;
static int g_bad, g_cb, g_need_cb;
static uint32_t g_char;
static int rrr_utf8_get_character__stub(uint32_t *result, const char **pos, const char *end) {
	CALLEE_PRE("get_character: same end", end == g_end);
	CALLEE_PRE("get_character: starts where the previous character ended", VF_SAME(*pos, g_buf) && VF_OFF(*pos) == g_pos && g_pos <= g_len);
	CALLEE_PRE("get_character: not called again after an ill-formed sequence", !g_bad);
	CALLEE_PRE("get_character: the previous character was reported", g_cb == 0);
	*result = 0;
	if (g_pos >= g_len) return 0;
	unsigned l = nondet_u32(); uint32_t c = nondet_u32();
	if (nondet_bool()) { /* ill-formed here; the position is unspecified but inside */
		size_t adv = nondet_u64(); REQUIRES(adv >= 1 && adv <= g_len - g_pos);
		*pos += adv; *result = c; g_bad = 1;
		return 1;
	}
	REQUIRES(l >= 1 && l <= 4 && l <= g_len - g_pos);
	*pos += l; g_pos += l; *result = c; g_char = c; g_cb = g_need_cb;
	return 0;
}
#define GET_CHARACTER rrr_utf8_get_character__real
#else
#define GET_CHARACTER rrr_utf8_get_character
#endif
VF_OPAQUE(rrr_utf8_get_character)

#include "util/utf8.c"

/* contract of rrr_utf8_get_character, proved for every buffer and position */
void p_get_character(void) {
	rrr_length n = VF_LEN32(0, VF_BOUND);
	char *b = vf_newbuf(n);
	uint32_t off = vf_in32(0, 0x7fffffff);
	REQUIRES(off <= n);
	const char *pos = b + off;
	uint32_t c = vf_u32();
	unsigned l = spec_len((unsigned char *) b + off, n - off);
	uint32_t cp = l ? spec_cp((unsigned char *) b + off, l) : 0;
	int r = GET_CHARACTER(&c, &pos, b + n);
	size_t adv = (size_t) (pos - (b + off));
	if (off == n) ENSURES("at the end: success, no character, position kept", r == 0 && c == 0 && adv == 0);
	else {
		ENSURES("accepts exactly the well-formed sequences", (r == 0) == (l != 0));
		ENSURES("consumes exactly the sequence", r != 0 || adv == l);
		ENSURES("yields the code point", r != 0 || c == cp);
		ENSURES("never moves past the end", adv >= 1 && adv <= n - off);
	}
	VF_REACH("get_character end");
}
void b_get_character(void) { p_get_character(); }

static int spec_valid(const unsigned char *b, size_t n, size_t *count) {
	size_t p = 0; *count = 0;
	while (p < n) {
		unsigned l = spec_len(b + p, n - p);
		if (!l) return 0;
		p += l; (*count)++;
	}
	return 1;
}

VF_LOOP(rrr_utf8_validate, 0,
	ptr(pos, buf); var(result); taken(end);
	inv(chain, VF_SAME(pos, buf) && g_pos <= g_len && VF_OFF(pos) <= g_len && (g_bad || VF_OFF(pos) == g_pos));
	inv(result, (ret == 0) == (g_bad == 0) && (g_bad == 0 || g_bad == 1));
	var(g_pos); var(g_bad); var(g_char);
	dec(g_len - VF_OFF(pos)); noframe())

void p_validate(void) {
#ifdef VF_PROOF
	rrr_length n = VF_LEN32(0, VF_BOUND);
	char *b = vf_newbuf(n);
	g_buf = b; g_end = b + n; g_len = n; g_pos = 0; g_bad = 0; g_cb = 0;
	int r = rrr_utf8_validate(b, n);
	ENSURES("accepts iff every character up to the very end is well-formed", (r == 0) == (!g_bad && g_pos == n));
	VF_REACH("validate end");
#endif
}
void b_validate(void) {
	rrr_length n = VF_LEN32(0, VF_BOUND);
	char *b = vf_newbuf(n);
	size_t cnt;
	int ok = spec_valid((unsigned char *) b, n, &cnt);
	ENSURES("accepts iff the whole buffer is well-formed UTF-8", (rrr_utf8_validate(b, n) == 0) == (ok != 0));
	VF_REACH("b_validate end");
}

static int iter_cb(uint32_t c, void *arg) {
	ENSURES("callback gets its argument", arg == cb_arg);
#ifdef VF_PROOF
	ENSURES("callback gets the character just decoded, once", g_cb == 1 && c == g_char);
	g_cb = 0;
	int r = nondet_u32();
	cb_ret = r; if (r) g_cb = 2;
	return r;
#else
	if (cb_n < 64) cb_chars[cb_n] = c;
	cb_n++;
	return cb_n == cb_stop ? cb_ret : 0;
#endif
}

VF_LOOP(rrr_utf8_validate_and_iterate, 0,
	ptr(pos, buf); var(result); taken(end);
	inv(chain, VF_SAME(pos, buf) && g_pos <= g_len && VF_OFF(pos) == g_pos);
	inv(result, ret == 0 && g_bad == 0 && cb_ret == 0 && g_cb == 0);
	var(g_pos); var(g_bad); var(g_char); var(cb_ret); var(g_cb); dec(g_len - VF_OFF(pos)); noframe())

void p_iterate(void) {
#ifdef VF_PROOF
	rrr_length n = VF_LEN32(0, VF_BOUND);
	char *b = vf_newbuf(n);
	int dummy; cb_arg = &dummy;
	g_buf = b; g_end = b + n; g_len = n; g_pos = 0; g_bad = 0; g_cb = 0; g_need_cb = 1; cb_ret = 0;
	int r = rrr_utf8_validate_and_iterate(b, n, iter_cb, cb_arg);
	ENSURES("a callback error stops and is returned", cb_ret == 0 || r == cb_ret);
	ENSURES("success iff every character is well-formed and was reported", (r == 0) == (!g_bad && cb_ret == 0 && g_pos == n && g_cb == 0));
	VF_REACH("iterate end");
#endif
}
void b_iterate(void) {
	rrr_length n = VF_LEN32(0, VF_BOUND);
	char *b = vf_newbuf(n);
	int dummy; cb_arg = &dummy; cb_n = 0;
	cb_ret = vf_in8(1, 3); cb_stop = vf_in8(0, 8);
	size_t cnt;
	int ok = spec_valid((unsigned char *) b, n, &cnt);
	int r = rrr_utf8_validate_and_iterate(b, n, iter_cb, cb_arg);
	if (cb_stop >= 1 && cb_stop <= cnt) ENSURES("a callback error stops and is returned", r == cb_ret && cb_n == cb_stop);
	else {
		ENSURES("accepts iff the whole buffer is well-formed UTF-8", (r == 0) == (ok != 0));
		ENSURES("every well-formed character is reported once", cb_n == cnt);
	}
	size_t p = 0, k = 0;
	while (p < n && k < cb_n && k < 64) {
		unsigned l = spec_len((unsigned char *) b + p, n - p);
		ENSURES("reported characters are the decoded ones, in order", l && cb_chars[k] == spec_cp((unsigned char *) b + p, l));
		p += l; k++;
	}
	VF_REACH("b_iterate end");
}
