//@ property C13
//@ proof p_encode unwind=2 native=0 timeout=300 defs=-DVF_CPW_FIXED=0,-DVF_CPW_N=1 funcs=rrr_http_util_uri_encode,__rrr_http_util_uri_encode_foreach_byte_callback,rrr_nullsafe_str_foreach_byte_do
//@ proof p_decode unwind=2 native=0 timeout=300 funcs=__rrr_http_util_decode_urlencoded_string,rrr_http_util_urlencoded_string_decode
//@ proof p_number unwind=2 native=0 timeout=300 defs=-DVF_CPW_FIXED=0,-DVF_CPW_N=2,-DREALNUM funcs=rrr_http_util_strtoull_raw
//@ proof p_quote unwind=2 native=0 timeout=400 cost=60 solver=cadical defs=-DVF_CPW_FIXED=0,-DVF_CPW_N=2 funcs=rrr_http_util_header_value_quote
//@ proof p_unquote unwind=2 native=0 timeout=400 cost=60 solver=cadical funcs=__rrr_http_util_unquote_string_callback,rrr_http_util_unquote_string
//@ proof p_search unwind=2 native=0 timeout=400 cost=40 solver=cadical funcs=rrr_http_util_strcasestr
//@ proof p_find unwind=2 native=0 timeout=300 funcs=rrr_http_util_find_crlf,rrr_http_util_find_whsp,rrr_http_util_strchr,rrr_http_util_count_whsp
//@ bounded b_http unwind=30 bound=12 fbound=40 nobmc=1 maxlen=300 always=1
//@ assume strings to encode are smaller than 2^30 bytes and header values to quote smaller than 2^31 (the code aborts or refuses above); sprintf("%s%02X"), strtoull, strlen and tolower have their C library contracts
#define VF_MEMCPY_WITNESS
#include "vf.h"
#include "rrr_types.h"
#include <strings.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <ctype.h>

/* ---- specification */
static int unreserved(unsigned char c) {
	return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '_' || c == '.' || c == '!' || c == '~' || c == '*' || c == '\'' || c == '(' || c == ')';
}
static int hexval(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int lowc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int special(unsigned char c) { return c == '(' || c == ')' || c == '<' || c == '>' || c == '@' || c == ',' || c == ';' || c == ':' || c == '\\' || c == '"' || c == '[' || c == ']' || c == ' ' || c == '\t' || c == '\r'; }
static int quotable(unsigned char c) { return (c >= 32 && c <= 126) || c == '\t' || c == '\r'; }
/* percent decoder, one character at a time: byte number w is remembered */
struct dec { int st, hi, bad; uint64_t out, w; uint8_t byte; };
static void dec_out(struct dec *x, unsigned b) { if (x->out == x->w) x->byte = (uint8_t) b; x->out++; }
static void dec_step(struct dec *x, unsigned char c) {
	if (x->bad) return;
	if (x->st == 0) { if (c == '%') x->st = 1; else dec_out(x, c); }
	else if (hexval(c) < 0) x->bad = 1;
	else if (x->st == 1) { x->hi = hexval(c); x->st = 2; }
	else { dec_out(x, (unsigned) x->hi * 16 + (unsigned) hexval(c)); x->st = 0; }
}
/* quoted strings: q is the opening character or 0 outside, e set after a backslash inside */
struct unq { unsigned char q; int e; uint64_t out, w; uint8_t byte; };
static void unq_out(struct unq *x, unsigned char c) { if (x->out == x->w) x->byte = c; x->out++; }
static unsigned char closing(unsigned char q) { return q == '"' ? '"' : ')'; }
static void unq_step(struct unq *x, unsigned char c) {
	if (!x->q) { if (c == '"' || c == '(') x->q = c; else unq_out(x, c); return; }
	if (x->e) {
		x->e = 0;
		/* a backslash before anything else stands for itself */
		if (!(c == x->q || c == closing(x->q) || c == '\\' || c == '\r')) unq_out(x, '\\');
		unq_out(x, c);
	}
	else if (c == '\\') x->e = 1;
	else if (c == closing(x->q)) x->q = 0;
	else unq_out(x, c);
}
static void unq_end(struct unq *x) { if (x->e) unq_out(x, '\\'); x->e = 0; }

#ifdef VF_PROOF
static struct dec g; static struct unq u;
static uint64_t g_pos, g_o, g_i, g_n, g_p, g_z, g_rs; static unsigned char g_ov, g_orig, g_orig2; static int g_os, g_need, g_ds, g_de, g_esc;
static char *g_res; static const unsigned char *g_src; static int g_called;
static uint64_t g_m, g_df, g_dfp, g_eq; static const char *g_needle;
static void put(unsigned char c) { if (g_pos == g_o) { g_ov = c; g_os = 1; } g_pos++; }
static unsigned char hexdigit(unsigned v) { return (unsigned char) (v < 10 ? '0' + v : 'A' + v - 10); }
static void enc1(unsigned char c) {
	if (unreserved(c)) { put(c); dec_step(&g, c); }
	else { put('%'); put(hexdigit(c >> 4)); put(hexdigit(c & 15)); dec_step(&g, '%'); dec_step(&g, hexdigit(c >> 4)); dec_step(&g, hexdigit(c & 15)); }
	g_i++;
}
static int vf_sprintf(char *d, const char *f, const char *s, unsigned v) {
	CALLEE_PRE("percent and two upper case hex digits", f[0] == '%' && f[1] == 's' && f[2] == '%' && f[3] == '0' && f[4] == '2' && f[5] == 'X' && f[6] == 0 && s[0] == '%' && s[1] == 0 && v < 256);
	d[0] = '%'; d[1] = (char) hexdigit(v >> 4); d[2] = (char) hexdigit(v & 15); d[3] = 0;
	return 3;
}
static const char *g_num; static uint64_t g_numn, g_numres; static int g_numbase;
static unsigned long long vf_strtoull(const char *s, char **e, int base) {
	CALLEE_PRE("strtoull: exactly the digits, terminated", g_numn <= 63 && base == g_numbase && s[g_numn] == 0 && (g_p >= g_numn || s[g_p] == g_num[g_p]));
	*e = (char *) s + g_numn;
	return g_numres;
}
static size_t vf_strlen_(const char *s) { CALLEE_PRE("strlen of the needle", s == g_needle); return g_m; }
#define strlen(s) vf_strlen_(s)
#define tolower(c) lowc(c)
#define strtoull(s, e, b) vf_strtoull(s, e, b)
#define VF_SPF(d, f, s, v, ...) vf_sprintf(d, f, (const char *) (uintptr_t) (s), (unsigned) (uintptr_t) (v))
#define sprintf(d, ...) VF_SPF(d, __VA_ARGS__, 0, 0, 0)
#endif
#include "http/http_util.c"
#ifdef VF_PROOF
#undef sprintf
#undef strlen
#undef tolower
#endif
#include "helpers/nullsafe_str.c"

#define WPOS (((struct rrr_http_util_uri_encode_foreach_byte_callback_data *) callback_arg)->wpos)
VF_LOOP(rrr_nullsafe_str_foreach_byte_do, 0,
	pre(g_res = WPOS); var(i); var(ret); ptr(WPOS, g_res); mem(g_res, 3 * g_n + 1); var(g); var(g_pos); var(g_i); var(g_os); var(g_ov);
	inv(count, i <= nullsafe->len && g_i == i && ret == 0);
	inv(write_pos, VF_SAME(WPOS, g_res) && VF_OFF(WPOS) == g_pos && g_pos >= i && g_pos <= 3 * (uint64_t) i);
	inv(written, g_os == (g_o < g_pos) && (!g_os || (unsigned char) g_res[g_o] == g_ov) && (!g_os || unreserved(g_ov) || g_ov == '%'));
	inv(decodes, !g.bad && g.st == 0 && g.out == i && (g.w >= i || g.byte == ((const unsigned char *) nullsafe->str)[g.w]));
	at(if (i < nullsafe->len) enc1(((const unsigned char *) nullsafe->str)[i]));
	dec(nullsafe->len - i))

VF_PTRCMP(__rrr_http_util_decode_urlencoded_string)
VF_PTRCMP(__rrr_http_util_unquote_string_callback)
/* decoding in place: what is ahead is still the original, what is behind is the decoded text */
VF_LOOP(__rrr_http_util_decode_urlencoded_string, 0,
	ptr(start, str); mem(str, g_n); var(wpos); var(ret); var(g);
	inv(position, VF_SAME(start, str) && VF_OFF(start) <= g_n && wpos <= VF_OFF(start) && ret == 0);
	inv(ahead_is_original, g_p < VF_OFF(start) || g_p >= g_n || ((unsigned char *) str)[g_p] == g_orig);
	inv(decoded, !g.bad && g.st == 0 && g.out == wpos && (g.w >= wpos || ((unsigned char *) str)[g.w] == g.byte));
	at(if (VF_OFF(start) < g_n) { unsigned char c0 = start[0]; dec_step(&g, c0); if (c0 == '%') { if (VF_OFF(start) + 1 < g_n) dec_step(&g, start[1]); if (VF_OFF(start) + 2 < g_n) dec_step(&g, start[2]); } });
	dec(g_n - VF_OFF(start)))

#ifdef REALNUM
VF_LOOP(rrr_http_util_strtoull_raw, 0,
	ptr(pos, start); ptr(numbers_end, =NULL); var(g_numn);
	inv(digits, VF_SAME(pos, start) && VF_OFF(pos) >= VF_OFF(start) && VF_OFF(pos) <= VF_OFF(end) && numbers_end == NULL
		&& (g_p >= VF_OFF(pos) - VF_OFF(start) || (hexval((unsigned char) start[g_p]) >= 0 && hexval((unsigned char) start[g_p]) < base)));
	at(g_numn = VF_OFF(pos) - VF_OFF(start));
	dec(VF_OFF(end) - VF_OFF(pos)))
#elif defined(VF_PROOF)
VF_OPAQUE(rrr_http_util_strtoull_raw)
int rrr_http_util_strtoull_raw__stub (unsigned long long int *result, rrr_length *result_len, const char *start, const char *end, int base) {
	CALLEE_PRE("two characters in hex", base == 16 && VF_SAME(start, end) && end - start == 2 && VF_R_OK(start, 2));
	int a = hexval((unsigned char) start[0]), b = hexval((unsigned char) start[1]);
	*result = 0; *result_len = 0;
	if (a < 0) return 1;
	*result = (unsigned) (b < 0 ? a : a * 16 + b); *result_len = b < 0 ? 1 : 2;
	return 0;
}
#endif

VF_LOOP(rrr_http_util_header_value_quote, 0,
	var(i); var(needs_quote); var(err);
	inv(checked, i <= length && err == 0 && (needs_quote == 0 || needs_quote == 1) && (g_p >= i || quotable((unsigned char) input[g_p])));
	inv(needs_quote_when_special, needs_quote || g_p >= i || !special((unsigned char) input[g_p]));
	dec(length - i))
static void quote1(unsigned char c);
VF_LOOP(rrr_http_util_header_value_quote, 1,
	var(i); ptr(wpos, result); mem(result, g_rs); var(u); var(g_pos); var(g_i); var(g_os); var(g_ov); var(g_esc); var(g_dfp);
	pre(g_rs = result_size; g_res = result; put((unsigned char) delimeter_start); unq_step(&u, (unsigned char) delimeter_start); g_dfp = 0);
	inv(count, i <= length && g_i == i);
	inv(write_pos, VF_SAME(wpos, result) && VF_OFF(wpos) == g_pos && g_pos >= 1 + (uint64_t) i && g_pos <= 1 + 2 * (uint64_t) i);
	inv(written, g_os == (g_o < g_pos) && (!g_os || (unsigned char) result[g_o] == g_ov));
	inv(rest_is_zero, g_z < g_pos || g_z >= g_rs || result[g_z] == 0);
	inv(unquotes, u.q == g_ds && !u.e && u.out == i && (u.w >= i || u.byte == (unsigned char) input[u.w]));
	at(ASSUME(g_p == i); if (i < length) { ASSUME(quotable((unsigned char) input[i])); quote1((unsigned char) input[i]); });
	dec(length - i))

VF_LOOP(__rrr_http_util_unquote_string_callback, 0,
	ptr(start, str); mem(str, g_n); var(wpos); var(u); var(g_m);
	inv(position, VF_SAME(start, str) && VF_OFF(start) <= g_n + 1 && wpos <= VF_OFF(start) && wpos <= g_n);
	inv(ahead_is_original, g_p < VF_OFF(start) || g_p >= g_n || ((unsigned char *) str)[g_p] == g_orig);
	inv(unquoted, (!u.q || VF_OFF(start) > g_n) && !u.e && u.out == wpos && (u.w >= wpos || ((unsigned char *) str)[u.w] == u.byte));
	at(if (VF_OFF(start) < g_n) unq_step(&u, *start));
	dec(g_n + 1 - VF_OFF(start)))
VF_LOOP(__rrr_http_util_unquote_string_callback, 1,
	pre(g_m = VF_OFF(start)); ptr(start, str); mem(str, g_n); var(wpos); var(u);
	inv(position, VF_SAME(start, str) && VF_OFF(start) >= g_m && VF_OFF(start) <= g_n && wpos < VF_OFF(start));
	inv(ahead_is_original, g_p < VF_OFF(start) || g_p >= g_n || ((unsigned char *) str)[g_p] == g_orig);
	inv(unquoted, u.q && closing(u.q) == endquote && u.q == beginquote && !u.e && u.out == wpos && (u.w >= wpos || ((unsigned char *) str)[u.w] == u.byte));
	at(if (VF_OFF(start) < g_n) { int two = *start == '\\' && VF_OFF(start) + 1 < g_n && (start[1] == u.q || start[1] == closing(u.q) || start[1] == '\\' || start[1] == '\r');
		unsigned char c0 = *start; 
		if (c0 == '\\' && !two) unq_out(&u, '\\'); else { unq_step(&u, c0); if (two) unq_step(&u, start[1]); } });
	dec(g_n - VF_OFF(start)))

#define CAND (VF_OFF(pos) - (uint64_t) len)
VF_LOOP(rrr_http_util_strcasestr, 0,
	ptr(pos, start); ptr(result, =(nondet_bool() ? NULL : start + vf_noff())); ptr(revert_position, =(nondet_bool() ? NULL : start + vf_noff())); ptr(needle_pos, needle); var(len); var(g_dfp);
	inv(position, VF_SAME(pos, start) && VF_OFF(pos) <= g_n && len < g_m && len <= VF_OFF(pos));
	inv(candidate, len == 0 ? (result == NULL && revert_position == NULL) : (result == start + CAND && revert_position == result + 1));
	inv(needle, needle_pos == needle + len);
	inv(equal_so_far, g_eq >= len || (char) lowc(start[CAND + g_eq]) == (char) lowc(needle[g_eq]));
	inv(none_before, g_p >= CAND || (g_dfp < g_m && g_dfp < g_n - g_p && (char) lowc(start[g_p + g_dfp]) != (char) lowc(needle[g_dfp])));
	at(if (VF_OFF(pos) < g_n && CAND == g_p && (char) lowc(*pos) != (char) lowc(*needle_pos)) g_dfp = len);
	dec(((g_n - CAND) << 32) + (g_m - len)))

VF_LOOP(rrr_http_util_find_crlf, 0, ptr(pos, start); inv(none, VF_SAME(pos, start) && VF_OFF(pos) >= VF_OFF(start) && (VF_OFF(pos) < VF_OFF(end) || VF_OFF(pos) == VF_OFF(start)) && (g_p < VF_OFF(start) || g_p >= VF_OFF(pos) || !(g_res[g_p] == '\r' && g_res[g_p + 1] == '\n'))); dec(VF_OFF(end) - VF_OFF(pos)))
VF_LOOP(rrr_http_util_find_whsp, 0, ptr(pos, start); inv(none, VF_SAME(pos, start) && VF_OFF(pos) >= VF_OFF(start) && (VF_OFF(pos) < VF_OFF(end) || VF_OFF(pos) == VF_OFF(start)) && (g_p < VF_OFF(start) || g_p >= VF_OFF(pos) || !(g_res[g_p] == ' ' || g_res[g_p] == '\t'))); dec(VF_OFF(end) - VF_OFF(pos)))
VF_LOOP(rrr_http_util_strchr, 0, ptr(pos, start); inv(none, VF_SAME(pos, start) && VF_OFF(pos) >= VF_OFF(start) && VF_OFF(pos) <= VF_OFF(end) && (g_p < VF_OFF(start) || g_p >= VF_OFF(pos) || g_res[g_p] != chr)); dec(VF_OFF(end) - VF_OFF(pos)))
VF_LOOP(rrr_http_util_count_whsp, 0, ptr(pos, start); var(ret); inv(all, VF_SAME(pos, start) && VF_OFF(pos) >= VF_OFF(start) && VF_OFF(pos) <= VF_OFF(end) && ret == VF_OFF(pos) - VF_OFF(start) && (g_p < VF_OFF(start) || g_p >= VF_OFF(pos) || g_res[g_p] == ' ' || g_res[g_p] == '\t')); dec(VF_OFF(end) - VF_OFF(pos)))

#ifdef VF_PROOF
static void quote1(unsigned char c) {
	if (c == g_ds || c == g_de || c == '\r' || c == '\\') { put('\\'); unq_step(&u, '\\'); }
	put(c); unq_step(&u, c); g_i++;
}
static struct rrr_nullsafe_str *any_str(uint64_t max) {
	struct rrr_nullsafe_str *s = vf_new(sizeof(*s));
	s->len = vf_in64(0, max);
	s->str = nondet_bool() ? vf_newbuf(s->len) : NULL;
	REQUIRES(s->str != NULL || s->len == 0);
	return s;
}
static void start_spec(void) {
	memset(&g, 0, sizeof(g)); g.w = nondet_u64(); memset(&u, 0, sizeof(u)); u.w = nondet_u64();
	g_pos = g_i = 0; g_os = 0; g_o = nondet_u64(); g_p = nondet_u64(); g_z = nondet_u64(); vf_cpw[0] = g_z;
}
#endif
void p_encode(void) {
#ifdef VF_PROOF
	struct rrr_nullsafe_str *s = any_str(0x3fffffff), *t = NULL; g_n = s->len;
	start_spec();
	if (rrr_http_util_uri_encode(&t, s) == 0) {
		ENSURES("encoded size", t != NULL && t->len == g_pos);
		ENSURES("exactly the specified characters", g_o >= g_pos || ((unsigned char *) t->str)[g_o] == g_ov);
		ENSURES("only unreserved characters and percent sequences", g_o >= g_pos || unreserved(g_ov) || g_ov == '%');
		ENSURES("decoding gives the bytes back", !g.bad && g.st == 0 && g.out == g_n && (g.w >= g_n || g.byte == ((unsigned char *) s->str)[g.w]));
		ENSURES("input unchanged", s->len == g_n);
	}
	VF_REACH("encode end");
#endif
}
void p_decode(void) {
#ifdef VF_PROOF
	struct rrr_nullsafe_str *s = any_str(0x3fffffffffffULL); g_n = s->len; char *p = s->str;
	start_spec(); REQUIRES(s->str != NULL);
	g_orig = g_p < g_n ? ((unsigned char *) p)[g_p] : 0;
	int r = rrr_http_util_urlencoded_string_decode(s);
	ENSURES("refused exactly when a sequence is cut short or not hexadecimal", (r != 0) == (g.bad || g.st != 0));
	if (r == 0) ENSURES("exactly the decoded bytes", s->len == g.out && s->len <= g_n && s->str == p && (g.w >= g.out || ((unsigned char *) p)[g.w] == g.byte));
	else ENSURES("a refused string keeps its size", s->len == g_n && s->str == p);
	VF_REACH("decode end");
#endif
}
void p_number(void) {
#ifdef VF_PROOF
	uint64_t n = vf_in64(0, 0x3fffffffffffULL); char *b = vf_newbuf(n);
	unsigned long long v = 1; rrr_length l = 4711; int base = nondet_bool() ? 10 : 16;
	g_p = nondet_u64(); g_num = b; g_numbase = base; g_numn = 0; g_numres = nondet_u64();
	vf_cpw[0] = g_p; REQUIRES(g_p < n);
	int r = rrr_http_util_strtoull_raw(&v, &l, b, b + n, base);
	if (r == 0) ENSURES("value and size of the digits", v == g_numres && l == g_numn && l > 0);
	else ENSURES("nothing", v == 0 && l == 0);
	ENSURES("exactly the leading digits", g_p < g_numn ? (hexval((unsigned char) b[g_p]) >= 0 && hexval((unsigned char) b[g_p]) < base) : g_p > g_numn || hexval((unsigned char) b[g_p]) < 0 || hexval((unsigned char) b[g_p]) >= base);
	ENSURES("refused only without digits or with too many", (r != 0) == (g_numn == 0 || g_numn > 63));
	VF_REACH("number end");
#endif
}
void p_quote(void) {
#ifdef VF_PROOF
	uint64_t n = vf_in64(1, 0x7fffffff); char *b = vf_newbuf(n);
	start_spec(); g_n = n; int paren = nondet_bool(); g_ds = paren ? '(' : '"'; g_de = paren ? ')' : '"'; vf_cpw[1] = g_p;
	char *r = rrr_http_util_header_value_quote(b, (rrr_length) n, (char) g_ds, (char) g_de);
	if (r != NULL) {
		ENSURES("only printable characters, tabs and escaped carriage returns", g_p >= n || quotable((unsigned char) b[g_p]));
		if (g_i == 0) {
			/* not quoted */
			ENSURES("nothing special in it", g_p >= n || !special((unsigned char) b[g_p]));
			ENSURES("the text itself", (g_p >= n || r[g_p] == b[g_p]) && (g_z != n || r[g_z] == 0));
		}
		else {
			ENSURES("the whole text", g_i == n);
			put((unsigned char) g_de);
			ENSURES("still inside the quotes at the end of the text", u.q == g_ds && !u.e);
			unq_step(&u, (unsigned char) g_de);
			ENSURES("exactly the specified characters", g_o >= g_pos || (unsigned char) r[g_o] == g_ov);
			ENSURES("terminated", g_z != g_pos || r[g_z] == 0);
			ENSURES("the closing quote closes, and unquoting gives the text back", u.q == 0 && u.out == n && (u.w >= n || u.byte == (unsigned char) b[u.w]));
		}
	}
	VF_REACH("quote end");
#endif
}
void p_unquote(void) {
#ifdef VF_PROOF
	struct rrr_nullsafe_str *s = any_str(0x3fffffffffffULL); g_n = s->len; unsigned char *p = s->str;
	start_spec(); REQUIRES(s->str != NULL);
	g_orig = g_p < g_n ? p[g_p] : 0;
	int r = rrr_http_util_unquote_string(s);
	ENSURES("never refused, exactly the unquoted text", r == 0 && s->len == u.out && s->len <= g_n && (void *) p == s->str && (u.w >= u.out || p[u.w] == u.byte));
	VF_REACH("unquote end");
#endif
}
void p_search(void) {
#ifdef VF_PROOF
	uint64_t n = vf_in64(0, 0x7fffffff); char *b = vf_newbuf(n); g_n = n; g_m = vf_in64(1, 0x7fffffff); char *x = vf_newbuf(g_m + 1); g_needle = x;
	g_p = nondet_u64(); g_eq = nondet_u64(); g_dfp = nondet_u64();
	const char *rs = b; rrr_length rl = 4711;
	int r = rrr_http_util_strcasestr(&rs, &rl, b, b + n, x);
	uint64_t at = n < g_m ? 0 : n - g_m + 1;
	if (r == 0) { ENSURES("result", VF_SAME(rs, b) && rl == g_m && VF_OFF(rs) < at); at = VF_OFF(rs); ENSURES("matches", g_eq >= g_m || (char) lowc(rs[g_eq]) == (char) lowc(x[g_eq])); }
	else ENSURES("no result", rs == NULL && rl == 0);
	ENSURES("nothing before it matches", g_p >= at || (g_dfp < g_m && (char) lowc(b[g_p + g_dfp]) != (char) lowc(x[g_dfp])));
	VF_REACH("search end");
#endif
}
void p_find(void) {
#ifdef VF_PROOF
	uint64_t n = vf_in64(1, 0x7fffffff), a = nondet_u64(); char *b = vf_newbuf(n); g_res = b; g_p = nondet_u64(); REQUIRES(a > 0 && a <= n && g_p < n); char c = (char) nondet_u8();
	const char *s = b + a, *e = b + n, *r;
	int op = nondet_u32() % 4;
	if (op == 0) { r = rrr_http_util_find_crlf(s, e); if (r) ENSURES("CRLF", VF_SAME(r, b) && VF_OFF(r) >= a && VF_OFF(r) + 1 < n && r[0] == '\r' && r[1] == '\n'); ENSURES("the first one", g_p < a || g_p + 1 >= (r ? VF_OFF(r) + 1 : n) || !(b[g_p] == '\r' && b[g_p + 1] == '\n')); }
	else if (op == 1) { r = rrr_http_util_find_whsp(s, e); if (r) ENSURES("space", VF_SAME(r, b) && VF_OFF(r) >= a && VF_OFF(r) < n && (*r == ' ' || *r == '\t')); ENSURES("the first one", g_p < a || g_p + 1 >= (r ? VF_OFF(r) + 1 : n) || !(b[g_p] == ' ' || b[g_p] == '\t')); }
	else if (op == 2) { r = rrr_http_util_strchr(s, e, c); if (r) ENSURES("character", VF_SAME(r, b) && VF_OFF(r) >= a && VF_OFF(r) < n && *r == c); ENSURES("the first one", g_p < a || g_p >= (r ? VF_OFF(r) : n) || b[g_p] != c); }
	else { rrr_length l = rrr_http_util_count_whsp(s, e); ENSURES("all leading space", l <= n - a && (l == n - a || (s[l] != ' ' && s[l] != '\t')) && (g_p < a || g_p >= a + l || b[g_p] == ' ' || b[g_p] == '\t')); }
	VF_REACH("find end");
#endif
}

/* bounded: random strings against the specification above, and URIs put together from parts */
void b_http(void) {
#ifndef VF_PROOF
	unsigned n = vf_in8(0, VF_BOUND); unsigned char b[300], o[300]; unsigned m = 0;
	for (unsigned i = 0; i < n; i++) { uint8_t k = vf_in8(0, 7); b[i] = k == 0 ? vf_u8() : k == 1 ? '%' : k == 2 ? '"' : k == 3 ? '\\' : k == 4 ? '(' : k == 5 ? '1' : k == 6 ? 'a' : ')'; }
	char *raw = malloc(n ? n : 1); memcpy(raw, b, n);
	struct rrr_nullsafe_str *s = NULL, *t = NULL;
	if (rrr_nullsafe_str_new_or_replace_raw(&s, raw, n)) return;
	switch (vf_in8(0, 4)) {
		case 0: {
			ENSURES("encodes", rrr_http_util_uri_encode(&t, s) == 0);
			for (unsigned i = 0; i < t->len; i++) { unsigned char c = ((unsigned char *) t->str)[i]; ENSURES("characters", unreserved(c) || c == '%'); }
			ENSURES("decodes to the same", t->len == 0 ? n == 0 : rrr_http_util_urlencoded_string_decode(t) == 0 && t->len == n && memcmp(t->str, b, n) == 0);
			break; }
		case 1: {
			struct dec x; memset(&x, 0, sizeof(x)); x.w = UINT64_MAX;
			for (unsigned i = 0; i < n; i++) { uint64_t q = x.out; x.w = q; dec_step(&x, b[i]); if (x.out > q) o[m++] = x.byte; }
			int r = n ? rrr_http_util_urlencoded_string_decode(s) : 0;
			ENSURES("refused when invalid", (r != 0) == (x.bad || x.st != 0));
			if (r == 0) ENSURES("decoded", s->len == m && (m == 0 || memcmp(s->str, o, m) == 0));
			break; }
		case 2: {
			if (n == 0) break;
			int paren = vf_bool(); char *q = rrr_http_util_header_value_quote(raw, n, paren ? '(' : '"', paren ? ')' : '"');
			int ok = 1; for (unsigned i = 0; i < n; i++) ok &= quotable(b[i]);
			ENSURES("quoted when possible", ok == (q != NULL));
			if (q) {
				ENSURES("string", rrr_nullsafe_str_new_or_replace_raw(&t, q, strlen(q)) == 0);
				ENSURES("unquotes to the same", rrr_http_util_unquote_string(t) == 0 && t->len == n && memcmp(t->str, b, n) == 0);
			}
			free(q); break; }
		case 3: {
			unsigned k = vf_in8(0, 4); char nd[8]; for (unsigned i = 0; i < k; i++) nd[i] = (char) (vf_bool() ? 'a' : 'b'); nd[k] = 0;
			for (unsigned i = 0; i < n; i++) raw[i] = vf_bool() ? 'A' : 'b';
			const char *rs; rrr_length rl; int want = -1; if (!k) break;
			for (unsigned i = 0; i + k <= n && want < 0; i++) if (strncasecmp(raw + i, nd, k) == 0) want = (int) i;
			int r = rrr_http_util_strcasestr(&rs, &rl, raw, raw + n, nd);
			ENSURES("first match", want < 0 ? r != 0 : r == 0 && rs == raw + want && rl == k);
			break; }
		case 4: {
			static const char *pr[] = {"http", "https", "ws", "wss", "HTTP"};
			unsigned p = vf_in8(0, 4), port = vf_bool() ? vf_in16(1, 65535) : 0, hl = vf_in8(1, 20), el = vf_in8(0, 20); char host[32], ep[32], uri[120];
			for (unsigned i = 0; i < hl; i++) { uint8_t c = vf_in8(0, 37); host[i] = (char) (c < 26 ? 'a' + c : c < 36 ? '0' + c - 26 : c == 36 || i == 0 ? '.' : '-'); } host[hl] = 0;
			for (unsigned i = 0; i < el; i++) { uint8_t c = vf_in8(0, 29); ep[i] = (char) (i == 0 ? '/' : c < 26 ? 'a' + c : "/?=&"[c - 26]); } ep[el] = 0;
			if (port) snprintf(uri, sizeof(uri), "%s://%s:%u%s", pr[p], host, port, ep); else snprintf(uri, sizeof(uri), "%s://%s%s", pr[p], host, ep);
			char *ur = malloc(strlen(uri)); memcpy(ur, uri, strlen(uri));
			struct rrr_http_uri *u1 = NULL, u2; memset(&u2, 0, sizeof(u2));
			if (rrr_nullsafe_str_new_or_replace_raw(&t, ur, strlen(uri))) return; free(ur);
			ENSURES("URI accepted", rrr_http_util_uri_parse(&u1, t) == 0 && u1 != NULL);
			int tls = p == 1 || p == 3;
			ENSURES("protocol", strcmp(u1->protocol, p == 4 ? "http" : pr[p]) == 0);
			ENSURES("host", strcmp(u1->host, host) == 0);
			ENSURES("port", u1->port == (port ? port : tls ? 443u : 80u));
			ENSURES("endpoint", strcmp(u1->endpoint, ep) == 0);
			struct rrr_http_uri_flags fl; rrr_http_util_uri_flags_get(&fl, u1);
			ENSURES("flags", (fl.is_tls != 0) == tls && (fl.is_http != 0) == (p < 2 || p == 4) && (fl.is_websocket != 0) == (p == 2 || p == 3));
			ENSURES("copy", rrr_http_util_uri_dup(&u2, u1) == 0 && strcmp(u2.host, host) == 0 && u2.endpoint && strcmp(u2.endpoint, ep) == 0 && u2.port == u1->port && strcmp(u2.protocol, u1->protocol) == 0);
			rrr_http_util_uri_clear(&u2); rrr_http_util_uri_destroy(u1);
			break; }
	}
	free(raw); rrr_nullsafe_str_destroy_if_not_null(&s); rrr_nullsafe_str_destroy_if_not_null(&t);
#endif
}
