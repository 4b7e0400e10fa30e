//@ property C02
//@ proof p_filter_char unwind=2 native=0 funcs=__rrr_mqtt_topic_filter_char_is_ok
//@ proof p_name_char unwind=2 native=0 funcs=__rrr_mqtt_topic_name_char_is_ok
//@ proof p_validate unwind=2 native=0 funcs=rrr_mqtt_topic_filter_validate_name,rrr_mqtt_topic_validate_name_with_end,rrr_mqtt_topic_validate_name
//@ proof p_match_tokens unwind=2 native=0 funcs=rrr_mqtt_topic_match_tokens_recursively
//@ proof p_match_acl unwind=2 native=0 funcs=rrr_mqtt_topic_match_tokens_recursively_acl
//@ proof p_strnchr unwind=2 native=0 funcs=__rrr_mqtt_topic_strnchr
//@ proof p_tokenize unwind=2 native=0 funcs=rrr_mqtt_topic_tokenize_with_end
//@ proof p_match_str unwind=2 native=0 funcs=rrr_mqtt_topic_match_str_with_end
//@ proof p_linear unwind=2 native=0 funcs=rrr_mqtt_topic_match_topic_and_linear_with_end
//@ proof p_clone unwind=2 native=0 defs=-DVF_CPW_FIXED=0 funcs=rrr_mqtt_topic_tokens_clone,rrr_mqtt_topic_token_destroy
//@ bounded b_validate unwind=2 nobmc=1 bound=10 maxlen=64 always=1
//@ bounded b_match unwind=2 nobmc=1 bound=16 maxlen=100 always=1
//@ assume UTF-8 validation and iteration by contract (proved in C04); strcmp, strlen and strcpy of the C library by their definition
//@ assume the token functions are proved step by step (induction over the list: each recursive call by the function's own contract); filters matched were accepted by the filter validation, as all callers ensure; topics contain no NUL character
#define VF_MEMCPY_WITNESS
#include "vf.h"
#include "rrr_types.h"
#include "mqtt/mqtt_topic.h"
#ifdef VF_PROOF
/* libc strings by definition: results for the strings they are called with */
static const char *g_s1, *g_s2; static int g_cmp, g_cmp_calls; static size_t g_len; static const char *g_lens;
static int vf_strcmp(const char *a, const char *b) { CALLEE_PRE("strcmp of the two levels", a == g_s1 && b == g_s2); g_cmp_calls++; return g_cmp; }
static size_t vf_strlen(const char *a) { CALLEE_PRE("strlen of the given string", a == g_lens); return g_len; }
static char *vf_strcpy(char *d, const char *s) { CALLEE_PRE("strcpy of the given string", s == g_lens); return memcpy(d, s, g_len + 1); }
#define strcmp(a, b) vf_strcmp(a, b)
#define strlen(a) vf_strlen(a)
#define strcpy(a, b) vf_strcpy(a, b)
static const char *g_it_buf; static uint64_t g_it_len; static void *g_it_cb; static int g_it_ret, g_it_n, g_it_zero;
int rrr_utf8_validate_and_iterate(const char *buf, rrr_length len, int (*cb)(uint32_t character, void *arg), void *arg) {
	g_it_buf = buf; g_it_len = len; g_it_cb = cb; g_it_n++; g_it_zero = ((uint32_t *) arg)[0] == 0 && ((uint32_t *) arg)[1] == 0;
	return g_it_ret;
}
/* contracts of the recursive functions, used by their own proofs for the rest of the list */
static const struct rrr_mqtt_topic_token *g_r1, *g_r2; static int g_rec, g_rec_n;
static int rec_match(const struct rrr_mqtt_topic_token *a, const struct rrr_mqtt_topic_token *b) { g_r1 = a; g_r2 = b; g_rec_n++; return g_rec; }
static int rrr_mqtt_topic_match_tokens_recursively__stub(const struct rrr_mqtt_topic_token *a, const struct rrr_mqtt_topic_token *b) { return rec_match(a, b); }
static int rrr_mqtt_topic_match_tokens_recursively_acl__stub(const struct rrr_mqtt_topic_token *a, const struct rrr_mqtt_topic_token *b) { return rec_match(a, b); }
static struct rrr_mqtt_topic_token *g_tok[2]; static const char *g_tp[2], *g_te[2]; static int g_tok_ret[2], g_tok_n;
static int rrr_mqtt_topic_tokenize_with_end__stub(struct rrr_mqtt_topic_token **t, const char *topic, const char *end) {
	unsigned k = g_tok_n ? 1 : 0; g_tp[k] = topic; g_te[k] = end; g_tok_n++;
	*t = g_tok_ret[k] ? NULL : g_tok[k];
	return g_tok_ret[k];
}
static struct rrr_mqtt_topic_token *g_freed[2]; static int g_freed_n;
static void rrr_mqtt_topic_token_destroy__stub(struct rrr_mqtt_topic_token *t) { g_freed[g_freed_n ? 1 : 0] = t; g_freed_n++; }
static struct rrr_mqtt_topic_token *g_clone; static const struct rrr_mqtt_topic_token *g_clone_of; static int g_clone_ret;
static int rrr_mqtt_topic_tokens_clone__stub(struct rrr_mqtt_topic_token **t, const struct rrr_mqtt_topic_token *f) { g_clone_of = f; *t = g_clone_ret ? NULL : g_clone; return g_clone_ret; }
static const char *g_chr_ret; static const char *g_chr_hay, *g_chr_end;
static const char *__rrr_mqtt_topic_strnchr__stub(const char *h, const char c, const char *end) {
	CALLEE_PRE("search of the level separator", c == '/');
	g_chr_hay = h; g_chr_end = end; return g_chr_ret;
}
static uint64_t g_w; static int g_m; static uint64_t g_next;
static const char *g_topic, *g_filter; static uint64_t g_tn, g_fn;
#define R(f) f##__real
#else
#include "util/utf8.c"
#define R(f) f
#endif
VF_OPAQUE(rrr_mqtt_topic_match_tokens_recursively)
VF_OPAQUE(rrr_mqtt_topic_match_tokens_recursively_acl)
VF_OPAQUE(rrr_mqtt_topic_tokenize_with_end)
VF_OPAQUE(rrr_mqtt_topic_token_destroy)
VF_OPAQUE(rrr_mqtt_topic_tokens_clone)
VF_OPAQUE(__rrr_mqtt_topic_strnchr)
#include "mqtt/mqtt_topic.c"

VF_LOOP(__rrr_mqtt_topic_strnchr, 0,
	ptr(pos, haystack);
	inv(searched, VF_IN(pos, haystack, g_len) && (!(g_w < VF_OFF(pos) - VF_OFF(haystack)) || haystack[g_w] != chr));
	dec(g_len - VF_OFF(pos)))
/* filter position fp matched against topic position tp; g_m is the meaning of the rest of the filter against
 * the rest of the topic: by definition '#' is everything unless the level starts with $, '+' is up to the
 * next separator (g_next, chosen so that there is no separator before it) unless the level starts with $,
 * any other character is itself, and an empty filter matches the empty rest. All steps pass g_m on. */
#define FP (VF_OFF(filter_pos) - VF_OFF(filter))
#define TP (VF_OFF(topic_pos) - VF_OFF(topic))
VF_LOOP(rrr_mqtt_topic_match_topic_and_linear_with_end, 0,
	ptr(filter_pos, filter); ptr(topic_pos, topic); var(filter_token_pos); var(topic_token_pos);
	inv(position, VF_IN(filter_pos, filter, g_fn) && VF_IN(topic_pos, topic, g_tn));
	inv(counters, filter_token_pos >= 0 && (uint64_t) filter_token_pos <= FP && topic_token_pos >= 0 && (uint64_t) topic_token_pos <= FP);
	at(if (FP < g_fn) __CPROVER_assume((FP > 0 && filter[FP - 1] != '/' ? filter[FP] != '#' && filter[FP] != '+' : 1)));
	at(if (FP == g_fn) __CPROVER_assume(g_m == (TP == g_tn)));
	at(if (FP < g_fn && filter[FP] == '#') __CPROVER_assume(g_m == !(TP < g_tn && topic[TP] == '$')));
	at(if (FP < g_fn && filter[FP] == '+' && TP < g_tn && topic[TP] == '$') __CPROVER_assume(!g_m));
	at(if (FP < g_fn && filter[FP] != '+' && filter[FP] != '#' && (TP == g_tn || topic[TP] != filter[FP])) __CPROVER_assume(!g_m));
	inv(levels, (!(FP == 0 || filter[FP - 1] == '/') || (filter_token_pos == 0 && topic_token_pos == 0)));
	dec(g_fn - FP))
VF_LOOP(rrr_mqtt_topic_match_topic_and_linear_with_end, 1,
	ptr(topic_pos, topic);
	inv(no separator before, VF_IN(topic_pos, topic, g_tn)); unchanged(topic_token_pos);
	dec(g_tn - TP))

/* C02, validation: what may follow what in a filter */
static int spec_pair_ok(uint32_t a, uint32_t b) {
	if (a == '#') return 0;
	if (b == '#' || b == '+') return a == '/' || a == 0;
	if (a == '+') return b == '/';
	return 1;
}
void p_filter_char(void) {
#ifdef VF_PROOF
	struct topic_name_seq s; s.c1 = nondet_u32(); s.c2 = nondet_u32(); s.orig = NULL;
	uint32_t before = s.c2, c = nondet_u32(); REQUIRES(c != 0);
	int r = __rrr_mqtt_topic_filter_char_is_ok(c, &s);
	ENSURES("accepted exactly when it may follow the previous character", (r == 0) == spec_pair_ok(before, c));
	ENSURES("it is the previous character of the next one", s.c2 == c);
	VF_REACH("filter char end");
#endif
}
void p_name_char(void) {
#ifdef VF_PROOF
	uint32_t c = nondet_u32();
	int r = __rrr_mqtt_topic_name_char_is_ok(c, NULL);
	ENSURES("only wildcards are refused in names", (r == 0) == (c != '#' && c != '+'));
	VF_REACH("name char end");
#endif
}
void p_validate(void) {
#ifdef VF_PROOF
	g_it_n = 0; g_it_ret = nondet_bool(); g_len = nondet_u64(); REQUIRES(g_len < 0x7fffffff);
	char *s = vf_newbuf(g_len + 1); s[g_len] = 0; g_lens = s;
	if (g_len > 0) REQUIRES(s[0] != 0);
	if (nondet_bool()) {
		int r = rrr_mqtt_topic_filter_validate_name(s);
		ENSURES("filter: each character of the whole string is checked from the start", r && g_len > 0xffff ? g_it_n == 0 : g_it_n == 1 && g_it_buf == s && g_it_len == g_len && g_it_cb == (void *) __rrr_mqtt_topic_filter_char_is_ok && g_it_zero && r == g_it_ret);
		ENSURES("filter: too long ones are refused", g_len <= 0xffff || r != 0);
	} else {
		int r = nondet_bool() ? rrr_mqtt_topic_validate_name(s) : rrr_mqtt_topic_validate_name_with_end(s, s + g_len);
		ENSURES("name: not empty and each character of the whole string is checked", g_len == 0 ? r != 0 : g_it_n == 1 && g_it_buf == s && g_it_len == g_len && g_it_cb == (void *) __rrr_mqtt_topic_name_char_is_ok && r == g_it_ret);
	}
	VF_REACH("validate end");
#endif
}
#ifdef VF_PROOF
/* a level: any text */
static struct rrr_mqtt_topic_token *any_token(void) {
	uint32_t n = nondet_u32(); REQUIRES(n >= 1);
	struct rrr_mqtt_topic_token *t = vf_new(sizeof(*t) + n);
	static struct rrr_mqtt_topic_token rest[2]; static int k;
	t->next = nondet_bool() ? NULL : &rest[k]; k = 1;
	return t;
}
#endif
void p_match_tokens(void) {
#ifdef VF_PROOF
	struct rrr_mqtt_topic_token *f = any_token(), *t = any_token();
	g_rec = nondet_bool() ? RRR_MQTT_TOKEN_MATCH : RRR_MQTT_TOKEN_MISMATCH; g_rec_n = 0;
	g_s1 = f->data; g_s2 = t->data; g_cmp = (int) nondet_u32(); g_lens = f->data; g_len = nondet_u64();
	/* the filter was validated: a wildcard is a level of its own; equal strings start equally */
	int wild = f->data[0] == '#' || f->data[0] == '+';
	REQUIRES(!wild || g_len == 1); REQUIRES(g_cmp != 0 || f->data[0] == t->data[0]);
	int have1 = nondet_bool(), have2 = nondet_bool();
	int r = R(rrr_mqtt_topic_match_tokens_recursively)(have1 ? f : NULL, have2 ? t : NULL);
	int level = wild ? t->data[0] != '$' : g_cmp == 0;
	int want = !have1 || !have2 ? 0 : f->data[0] == '#' ? level : level && ((!f->next && !t->next) || (g_rec == RRR_MQTT_TOKEN_MATCH));
	ENSURES("this level matches and the rest matches the rest", r == (want ? RRR_MQTT_TOKEN_MATCH : RRR_MQTT_TOKEN_MISMATCH));
	ENSURES("the rest is that of both", g_rec_n == 0 || (g_rec_n == 1 && g_r1 == f->next && g_r2 == t->next));
	ENSURES("the rest decides when there is one", !have1 || !have2 || f->data[0] == '#' || !level || (!f->next && !t->next) || g_rec_n == 1);
	VF_REACH("match tokens end");
#endif
}
void p_match_acl(void) {
#ifdef VF_PROOF
	struct rrr_mqtt_topic_token *m = any_token(), *s = any_token();
	g_rec = nondet_bool() ? RRR_MQTT_TOKEN_MATCH : RRR_MQTT_TOKEN_MISMATCH; g_rec_n = 0;
	g_s1 = m->data; g_s2 = s->data; g_cmp = (int) nondet_u32();
	REQUIRES(g_cmp != 0 || m->data[0] == s->data[0]);
	int have1 = nondet_bool(), have2 = nondet_bool();
	int r = R(rrr_mqtt_topic_match_tokens_recursively_acl)(have1 ? m : NULL, have2 ? s : NULL);
	char a = m->data[0], b = s->data[0];
	int level = a == '#' ? 1 : b == '#' ? 0 : a == '+' || b == '+' ? a != '$' : g_cmp == 0;
	int want = !have1 || !have2 ? 0 : a == '#' ? 1 : level && ((!m->next && !s->next) || g_rec == RRR_MQTT_TOKEN_MATCH);
	ENSURES("this level of the entry covers this level of the request and the rest the rest", r == (want ? RRR_MQTT_TOKEN_MATCH : RRR_MQTT_TOKEN_MISMATCH));
	ENSURES("the rest is that of both", g_rec_n == 0 || (g_rec_n == 1 && g_r1 == m->next && g_r2 == s->next));
	ENSURES("the rest decides when there is one", !have1 || !have2 || a == '#' || !level || (!m->next && !s->next) || g_rec_n == 1);
	VF_REACH("match acl end");
#endif
}
void p_strnchr(void) {
#ifdef VF_PROOF
	g_len = VF_LEN64(0, VF_BOUND); char *b = vf_newbuf(g_len); g_w = nondet_u64(); char c = (char) nondet_u8();
	const char *r = R(__rrr_mqtt_topic_strnchr)(b, c, b + g_len);
	ENSURES("found position holds the character, inside the text", r == NULL || (VF_SAME(r, b) && VF_OFF(r) < g_len && *r == c));
	ENSURES("nothing before it", !(g_w < (r ? VF_OFF(r) : g_len)) || b[g_w] != c);
	VF_REACH("strnchr end");
#endif
}
void p_tokenize(void) {
#ifdef VF_PROOF
	uint32_t n = vf_in32(0, 0x7fffffff); char *b = vf_newbuf(n); uint32_t o = nondet_u32(); REQUIRES(o <= n);
	static struct rrr_mqtt_topic_token dummy;
	g_tok[0] = &dummy; g_tok_ret[0] = nondet_bool(); g_tok_n = 0; g_freed_n = 0;
	/* contract of the search: first separator or none */
	uint32_t e = nondet_u32(); REQUIRES(e >= o && e <= n);
	REQUIRES(e == n || b[e] == '/');
	g_chr_ret = e == n ? NULL : b + e;
	uint64_t w = nondet_u64(); vf_cpw[0] = w; vf_cpw[1] = e - o - 1;
	struct rrr_mqtt_topic_token *t = (void *) 1;
	int r = R(rrr_mqtt_topic_tokenize_with_end)(&t, b + o, b + n);
	ENSURES("failure gives nothing", r == 0 || t == NULL);
	if (o == n) ENSURES("no text, no levels", r == 0 && t == NULL);
	else if (r == 0) {
		ENSURES("the level is searched in exactly the text", g_chr_hay == b + o && g_chr_end == b + n);
		ENSURES("the first level is the text up to the separator", t->data[e - o] == 0 && (w >= e - o || t->data[w] == b[o + w]));
		if (e == n) ENSURES("last level", g_tok_n == 0 && t->next == NULL);
		else if (e == n - 1) ENSURES("a separator at the end is followed by one empty level", g_tok_n == 1 && t->next == &dummy && g_te[0] == g_tp[0] + 1 && *g_tp[0] == 0);
		else ENSURES("the other levels are those of the text after the separator", g_tok_n == 1 && t->next == &dummy && g_tp[0] == b + e + 1 && g_te[0] == b + n);
		VF_REACH("tokenize ok");
	}
	VF_REACH("tokenize end");
#endif
}
void p_match_str(void) {
#ifdef VF_PROOF
	static struct rrr_mqtt_topic_token d[2]; g_tok[0] = &d[0]; g_tok[1] = &d[1]; g_tok_ret[0] = nondet_bool(); g_tok_ret[1] = nondet_bool(); g_tok_n = 0; g_freed_n = 0; g_rec_n = 0;
	g_rec = nondet_bool() ? RRR_MQTT_TOKEN_MATCH : RRR_MQTT_TOKEN_MISMATCH;
	g_len = nondet_u32() >> 1; char *f = vf_newbuf(g_len + 1); g_lens = f; uint32_t n = nondet_u32(); char *t = vf_newbuf(n);
	/* rrr_mqtt_topic_tokenize passes the whole string on */
	int r = rrr_mqtt_topic_match_str_with_end(f, t, t + n);
	ENSURES("no memory is an error, never a match", !(g_tok_ret[0] || g_tok_ret[1]) || r == RRR_MQTT_TOKEN_INTERNAL_ERROR);
	ENSURES("otherwise the levels of the filter are matched with those of the topic", g_tok_ret[0] || g_tok_ret[1] || (r == g_rec && g_rec_n == 1 && g_r1 == &d[0] && g_r2 == &d[1] && g_tp[0] == f && g_te[0] == f + g_len && g_tp[1] == t && g_te[1] == t + n));
	ENSURES("both lists are released", g_freed_n == 2 && g_freed[0] == (g_tok_ret[0] ? NULL : &d[0]) && g_freed[1] == (g_tok_ret[0] || g_tok_ret[1] ? NULL : &d[1]));
	VF_REACH("match str end");
#endif
}
void p_linear(void) {
#ifdef VF_PROOF
	g_tn = vf_in32(1, 0x7fffffff); g_fn = vf_in32(1, 0x7fffffff);
	char *t = vf_newbuf(g_tn), *f = vf_newbuf(g_fn); g_topic = t; g_filter = f; g_m = nondet_bool();
	int r = rrr_mqtt_topic_match_topic_and_linear_with_end(t, t + g_tn, f, f + g_fn);
	ENSURES("match, mismatch as defined", r == (g_m ? RRR_MQTT_TOKEN_MATCH : RRR_MQTT_TOKEN_MISMATCH));
	VF_REACH("linear end");
#endif
}
void p_clone(void) {
#ifdef VF_PROOF
	struct rrr_mqtt_topic_token *f = any_token(), *t = (void *) 1; static struct rrr_mqtt_topic_token d;
	g_len = VF_OBJSIZE(f) - offsetof(struct rrr_mqtt_topic_token, data) - 1; g_lens = f->data;
	g_clone = f->next ? &d : NULL; g_clone_ret = nondet_bool(); uint64_t w = nondet_u64(); vf_cpw[0] = w;
	int r = R(rrr_mqtt_topic_tokens_clone)(&t, f);
	if (r == 0) ENSURES("same text, then the copy of the rest", t != f && t->next == g_clone && g_clone_of == f->next && (w > g_len || t->data[w] == f->data[w]));
	else ENSURES("nothing on failure", t == NULL);
	ENSURES("a failure of the rest is passed on", g_clone_ret == 0 || r != 0);
	struct rrr_mqtt_topic_token *x = (void *) 1;
	ENSURES("copy of nothing", R(rrr_mqtt_topic_tokens_clone)(&x, NULL) == 0 && x == NULL);
	g_freed_n = 0; struct rrr_mqtt_topic_token *nx = f->next;
	R(rrr_mqtt_topic_token_destroy)(f); R(rrr_mqtt_topic_token_destroy)(NULL);
	ENSURES("the rest is released too", nx ? g_freed_n == 1 && g_freed[0] == nx : g_freed_n == 0);
	VF_REACH("clone end");
#endif
}

/* ---- native: independent reference, level by level ---- */
#ifdef VF_NATIVE
static int ref_split(const char *s, int n, int *at, int *len) { int k = 0, b = 0; for (int i = 0; i <= n; i++) if (i == n || s[i] == '/') { at[k] = b; len[k] = i - b; k++; b = i + 1; } return k; }
static int ref_match(const char *f, int fn, const char *t, int tn) {
	int fa[64], fl[64], ta[64], tl[64]; int nf = ref_split(f, fn, fa, fl), nt = ref_split(t, tn, ta, tl);
	for (int i = 0; i < nf; i++) {
		if (i >= nt) return 0;
		int dollar = tl[i] > 0 && t[ta[i]] == '$';
		if (fl[i] == 1 && f[fa[i]] == '#') return !dollar;
		if (fl[i] == 1 && f[fa[i]] == '+') { if (dollar) return 0; continue; }
		if (fl[i] != tl[i] || memcmp(f + fa[i], t + ta[i], fl[i])) return 0;
	}
	return nf == nt;
}
static int ref_acl(const char *m, int mn, const char *s, int sn) {
	int fa[64], fl[64], ta[64], tl[64]; int nf = ref_split(m, mn, fa, fl), nt = ref_split(s, sn, ta, tl);
	for (int i = 0; i < nf; i++) {
		if (i >= nt) return 0;
		char a = fl[i] ? m[fa[i]] : 0, b = tl[i] ? s[ta[i]] : 0;
		if (a == '#') return 1;
		if (b == '#') return 0;
		if (a == '+' || b == '+') { if (a == '$') return 0; continue; }
		if (fl[i] != tl[i] || memcmp(m + fa[i], s + ta[i], fl[i])) return 0;
	}
	return nf == nt;
}
static int ref_filter_ok(const char *f, int n) {
	for (int i = 0; i < n; i++) if (f[i] == '#' || f[i] == '+') {
		if (i > 0 && f[i - 1] != '/') return 0;
		if (f[i] == '#' ? i + 1 != n : i + 1 < n && f[i + 1] != '/') return 0;
	}
	return 1;
}
static char *gen(int n, const char *abc) { char *s = vf_new(n + 1u); unsigned k = (unsigned) strlen(abc); for (int i = 0; i < n; i++) s[i] = abc[vf_in8(0, (uint8_t) (k - 1))]; s[n] = 0; return s; }
/* a filter that is likely to match the topic */
static char *derive(const char *t, int tn, int *fn) {
	char *f = vf_new(tn + 4u); int k = 0, a[64], l[64], n = ref_split(t, tn, a, l);
	for (int i = 0; i < n; i++) {
		int how = vf_in8(0, 7);
		if (i) f[k++] = '/';
		if (how == 0) { f[k++] = '#'; break; }
		if (how <= 2 && k + 1 + (tn - a[i] - l[i]) <= tn + 2) f[k++] = '+';
		else { memcpy(f + k, t + a[i], l[i]); k += l[i]; }
		if (how == 7) break;
	}
	f[k] = 0; *fn = k;
	return f;
}
#endif
void b_validate(void) {
#ifdef VF_NATIVE
	int n = vf_in8(0, VF_BOUND);
	char *s = gen(n, "a/+#/+#$");
	if (vf_in8(0, 3) == 0 && n >= 2) { s[n - 2] = (char) 0xc3; s[n - 1] = (char) (vf_bool() ? 0xa9 : 'x'); }
	int utf = rrr_utf8_validate(s, n) == 0;
	ENSURES("filters", (rrr_mqtt_topic_filter_validate_name(s) == 0) == (utf && ref_filter_ok(s, n)));
	ENSURES("names", (rrr_mqtt_topic_validate_name(s) == 0) == (utf && n > 0 && !strchr(s, '+') && !strchr(s, '#')));
	char *x = vf_new(n); memcpy(x, s, n);
	ENSURES("names without terminator", (rrr_mqtt_topic_validate_name_with_end(x, x + n) == 0) == (utf && n > 0 && !strchr(s, '+') && !strchr(s, '#')));
	if (vf_in8(0, 255) == 0) { char *l = vf_new(0x10001); memset(l, 'a', 0x10000); l[0x10000] = 0; ENSURES("too long", rrr_mqtt_topic_filter_validate_name(l) != 0); l[0xffff] = 0; ENSURES("longest", rrr_mqtt_topic_filter_validate_name(l) == 0); }
#endif
}
void b_match(void) {
#ifdef VF_NATIVE
	int tn = vf_in8(1, VF_BOUND), fn;
	char *t0 = gen(tn, "ab//$"), *t = vf_new(tn), *f0; memcpy(t, t0, tn);
	if (vf_bool()) f0 = derive(t0, tn, &fn); else { fn = vf_in8(1, VF_BOUND); f0 = gen(fn, "ab//+#$"); }
	if (fn == 0 || !ref_filter_ok(f0, fn)) return;
	char *f = vf_new(fn); memcpy(f, f0, fn);
	int want = ref_match(f0, fn, t0, tn) ? RRR_MQTT_TOKEN_MATCH : RRR_MQTT_TOKEN_MISMATCH;
	ENSURES("token match", rrr_mqtt_topic_match_str_with_end(f0, t, t + tn) == want);
	ENSURES("token match of strings", rrr_mqtt_topic_match_str(f0, t0) == want);
	ENSURES("linear match", rrr_mqtt_topic_match_topic_and_linear_with_end(t, t + tn, f, f + fn) == want);
	struct rrr_mqtt_topic_token *a, *b, *c;
	ENSURES("tokenize", !rrr_mqtt_topic_tokenize(&a, f0) && !rrr_mqtt_topic_tokenize_with_end(&b, t, t + tn) && !rrr_mqtt_topic_tokens_clone(&c, a));
	ENSURES("acl match", rrr_mqtt_topic_match_tokens_recursively_acl(c, b) == (ref_acl(f0, fn, t0, tn) ? RRR_MQTT_TOKEN_MATCH : RRR_MQTT_TOKEN_MISMATCH));
	ENSURES("acl match of requested filter", rrr_mqtt_topic_match_tokens_recursively_acl(b, c) == (ref_acl(t0, tn, f0, fn) ? RRR_MQTT_TOKEN_MATCH : RRR_MQTT_TOKEN_MISMATCH));
	int at[64], l[64], n = ref_split(f0, fn, at, l), i = 0;
	for (struct rrr_mqtt_topic_token *x = c; x; x = x->next, i++) ENSURES("levels", i < n && (int) strlen(x->data) == l[i] && !memcmp(x->data, f0 + at[i], l[i]));
	ENSURES("number of levels", i == n);
	rrr_mqtt_topic_token_destroy(a); rrr_mqtt_topic_token_destroy(b); rrr_mqtt_topic_token_destroy(c);
#endif
}
