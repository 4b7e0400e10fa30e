//@ property C11
//@ proof p_single unwind=2 funcs=__rrr_mqtt_acl_check_access_single
//@ proof p_access unwind=2 native=0 funcs=rrr_mqtt_acl_check_access
//@ proof p_word unwind=9 native=0 funcs=rrr_parse_match_word_case
//@ proof p_action unwind=2 native=0 funcs=__rrr_mqtt_acl_parse_acl_action
//@ proof p_default unwind=2 native=0 funcs=__rrr_mqtt_acl_parse_keyword_default
//@ proof p_allow_all unwind=2 native=0 funcs=rrr_mqtt_acl_entry_collection_push_allow_all,__rrr_mqtt_acl_entry_collection_push_new
//@ bounded b_file unwind=2 nobmc=1 bound=5 maxlen=400 always=1
//@ bounded b_junk unwind=2 nobmc=1 bound=60 maxlen=80 always=1
//@ assume entry lists are finite and acyclic; matching of a topic by contract (proved in C02); strcmp, strdup and the allocator by definition
//@ assume the text of an ACL file is followed by a NUL character (as the file reader provides it)
//@ assume the block structure of the ACL file (topic blocks, comments) is decided by the bounded run against generated files only
#include "vf.h"
#include "rrr_types.h"
#include "parse.h"
#include "mqtt/mqtt_topic.h"
#include "mqtt/mqtt_acl.h"
#ifdef VF_PROOF
static struct rrr_mqtt_acl_entry g_e, g_e2; static struct rrr_mqtt_acl_user_entry g_u, g_u2;
static struct rrr_mqtt_acl g_list; static const char *g_user; static int g_eq, g_match, g_level, g_spec, g_inner;
static const struct rrr_mqtt_topic_token *g_tok;
static int vf_strcmp(const char *a, const char *b) { CALLEE_PRE("the entry's and the given user name are compared", a == g_u.username && b == g_user); return g_eq; }
#define strcmp(a, b) vf_strcmp(a, b)
static int match_cb(const struct rrr_mqtt_topic_token *a, const struct rrr_mqtt_topic_token *b) {
	CALLEE_PRE("entry's topic against the given topic, in this order", a == g_e.first_token && b == g_tok);
	return g_match;
}
/* the action read by the word parser, by contract */
static int g_word_ok[3], g_word_n; static struct rrr_parse_pos *g_pos;
static int rrr_parse_match_word_case__stub(struct rrr_parse_pos *pos, const char *word) {
	unsigned k = word[0] == 'D' ? 0 : word[0] == 'R' ? 1 : 2;
	CALLEE_PRE("keyword", pos == g_pos && (k == 0 ? word[1] == 'E' && word[2] == 'N' && word[3] == 'Y' && !word[4] : k == 1 ? word[1] == 'E' && word[2] == 'A' && word[3] == 'D' && !word[4] : word[0] == 'W' && word[1] == 'R' && word[2] == 'I' && word[3] == 'T' && word[4] == 'E' && !word[5]));
	g_word_n++;
	return g_word_ok[k];
}
static int g_act, g_act_ret, g_sp, g_nl, g_seq;
static int __rrr_mqtt_acl_parse_acl_action__stub(int *action, struct rrr_parse_pos *pos) { CALLEE_PRE("position", pos == g_pos && g_seq == 1); g_seq = 2; *action = g_act; return g_act_ret; }
static int __rrr_mqtt_acl_parse_require_space_then_non_newline__stub(struct rrr_parse_pos *pos) { CALLEE_PRE("position", pos == g_pos && g_seq == 0); g_seq = 1; return g_sp; }
static int __rrr_mqtt_acl_parse_require_newline_or_eof__stub(struct rrr_parse_pos *pos) { CALLEE_PRE("position", pos == g_pos && g_seq == 2); g_seq = 3; return g_nl; }
static struct rrr_mqtt_topic_token *g_t; static int g_t_ret, g_cl_ret, g_destroyed;
int rrr_mqtt_topic_tokenize(struct rrr_mqtt_topic_token **t, const char *s) { CALLEE_PRE("everything", s[0] == '#' && !s[1]); *t = g_t_ret ? NULL : g_t; return g_t_ret; }
int rrr_mqtt_topic_tokens_clone(struct rrr_mqtt_topic_token **t, const struct rrr_mqtt_topic_token *s) { CALLEE_PRE("clone of the tokens", s == g_t); *t = g_cl_ret ? NULL : (void *) &g_e2; return g_cl_ret; }
void rrr_mqtt_topic_token_destroy(struct rrr_mqtt_topic_token *t) { if (t) g_destroyed++; }
static char *g_dup;
char *rrr_strdup(const char *s) { return g_dup; }
#define R(f) f##__real
#else
#include "util/utf8.c"
#include "mqtt/mqtt_topic.c"
#define R(f) f
#endif
static int spec_single(int action, int level) { return (level == RRR_MQTT_ACL_ACTION_RO && (action == RRR_MQTT_ACL_ACTION_RO || action == RRR_MQTT_ACL_ACTION_RW)) || (level == RRR_MQTT_ACL_ACTION_RW && action == RRR_MQTT_ACL_ACTION_RW) ? RRR_MQTT_ACL_RESULT_ALLOW : RRR_MQTT_ACL_RESULT_DENY; }
VF_OPAQUE(rrr_parse_match_word_case)
VF_OPAQUE(__rrr_mqtt_acl_parse_acl_action)
VF_OPAQUE(__rrr_mqtt_acl_parse_require_space_then_non_newline)
VF_OPAQUE(__rrr_mqtt_acl_parse_require_newline_or_eof)
#include "parse.c"
#include "mqtt/mqtt_acl.c"

#ifdef VF_PROOF
/* an arbitrary entry of the list, and what follows it */
static void any_entry(void) { g_e.ptr_first = nondet_bool() ? &g_u : NULL; g_e.ptr_next = nondet_bool() ? &g_e2 : NULL; g_e.default_action = nondet_u32(); g_match = nondet_u32(); g_inner = 0; }
static void any_user(void) { g_u.ptr_next = nondet_bool() ? &g_u2 : NULL; g_u.action = nondet_u32(); g_eq = nondet_u32(); }
#endif
/* g_spec: the decision after the entries seen so far, by definition: a matching entry decides by its default action,
 * then each of its users with the given name decides */
VF_LOOP(rrr_mqtt_acl_check_access, 0,
	ptr(node, =(nondet_bool() ? (any_entry(), &g_e) : NULL)); ptr(next, =NULL); ptr(prev, =NULL); var(g_spec); var(g_inner);
	pre(__CPROVER_assert(node == g_list.ptr_first, "ENSURES starts with the first entry")); inv(no early end, !linked_list_iterate_stop && !linked_list_immediate_break && !linked_list_reverse);
	inv(decision of the entries so far, ret == g_spec);
	at(g_inner = 0; if (node != NULL && g_match == RRR_MQTT_TOKEN_MATCH) g_spec = spec_single(g_e.default_action, g_level));
	step(next entry, node == g_e.ptr_next);
	step(users considered exactly for matching entries and a given user, g_inner == (g_match == RRR_MQTT_TOKEN_MATCH && g_user != NULL && *g_user != 0));
	noframe())
VF_LOOP(rrr_mqtt_acl_check_access, 1,
	ptr(node, =(nondet_bool() ? (any_user(), &g_u) : NULL)); ptr(next, =NULL); ptr(prev, =NULL); var(g_spec);
	pre(g_inner++; __CPROVER_assert(node == g_e.ptr_first, "ENSURES starts with the first user of the entry")); inv(no early end, !linked_list_iterate_stop && !linked_list_immediate_break && !linked_list_reverse);
	inv(decision of the users so far, ret == g_spec);
	at(if (node != NULL && g_eq == 0) g_spec = spec_single(g_u.action, g_level));
	step(next user, node == g_u.ptr_next);
	noframe())

void p_single(void) {
	int action = (int) vf_u32(), level = vf_bool() ? RRR_MQTT_ACL_ACTION_RO : RRR_MQTT_ACL_ACTION_RW;
	ENSURES("read is allowed by READ and WRITE, write by WRITE only", __rrr_mqtt_acl_check_access_single(action, level) == spec_single(action, level));
	VF_REACH("single end");
}
void p_access(void) {
#ifdef VF_PROOF
	char user[2] = { (char) nondet_u8(), 0 }, name[1], topic[1] = { 0 };
	g_user = nondet_bool() ? user : NULL; g_u.username = name; g_tok = (void *) &g_u2; g_e.first_token = (void *) &g_e2; g_e.topic_orig = topic;
	g_list.ptr_first = nondet_bool() ? &g_e2 : NULL; g_spec = RRR_MQTT_ACL_RESULT_DENY; g_level = nondet_bool() ? RRR_MQTT_ACL_ACTION_RO : RRR_MQTT_ACL_ACTION_RW;
	int r = rrr_mqtt_acl_check_access(&g_list, g_tok, g_level, g_user, match_cb);
	ENSURES("the last matching entry decides, deny without any", r == g_spec);
	VF_REACH("access end");
#endif
}
void p_word(void) {
#ifdef VF_PROOF
	uint64_t n = vf_in32(0, 0xffffffff), w = nondet_u64(); char *d = vf_newbuf(n);
	struct rrr_parse_pos pos; pos.data = d; pos.size = n; pos.pos = nondet_u32(); pos.line = nondet_u32(); REQUIRES(pos.pos <= n);
	uint64_t p0 = pos.pos, l0 = pos.line; const char *words[] = { "DEFAULT", "USER", "TOPIC", "DENY", "READ", "WRITE" }; unsigned k = vf_in8(0, 5);
	static const unsigned len[] = { 7, 4, 5, 4, 4, 5 };
	int want = n - p0 >= len[k];
	for (unsigned i = 0; i < 7; i++) if (want && i < len[k]) { char c = d[p0 + i]; if (c >= 'a' && c <= 'z') c = (char) (c - 32); if (c != words[k][i]) want = 0; }
	int r = R(rrr_parse_match_word_case)(&pos, words[k]);
	ENSURES("the word, in any case", r == want);
	ENSURES("position after the word, or unchanged", pos.pos == p0 + (r ? len[k] : 0) && pos.line == l0 && pos.size == n);
	VF_REACH("word end");
#endif
}
void p_action(void) {
#ifdef VF_PROOF
	struct rrr_parse_pos pos; g_pos = &pos; pos.line = 0; int a = 77; for (int i = 0; i < 1; i++) { g_word_ok[0] = nondet_bool(); g_word_ok[1] = nondet_bool(); g_word_ok[2] = nondet_bool(); }
	int r = R(__rrr_mqtt_acl_parse_acl_action)(&a, &pos);
	ENSURES("refused exactly when it is none of the actions", (r == 0) == (g_word_ok[0] || g_word_ok[1] || g_word_ok[2]));
	if (r == 0) ENSURES("the action of the word", a == (g_word_ok[0] ? RRR_MQTT_ACL_ACTION_DENY : g_word_ok[1] ? RRR_MQTT_ACL_ACTION_RO : RRR_MQTT_ACL_ACTION_RW) || (g_word_ok[0] + g_word_ok[1] + g_word_ok[2] > 1));
	ENSURES("never more than asked for on failure", r == 0 || a == RRR_MQTT_ACL_ACTION_DENY);
	VF_REACH("action end");
#endif
}
void p_default(void) {
#ifdef VF_PROOF
	struct rrr_parse_pos pos; g_pos = &pos; pos.line = 0; struct rrr_mqtt_acl_entry e; e.default_action = 0;
	g_sp = nondet_u32(); g_act_ret = nondet_u32(); g_nl = nondet_u32(); g_act = nondet_u32();
	int r = __rrr_mqtt_acl_parse_keyword_default(&e, &pos);
	ENSURES("accepted exactly when all parts are", (r == 0) == (!g_sp && !g_act_ret && !g_nl));
	ENSURES("the action read", r != 0 || (e.default_action == g_act && g_seq == 3));
	VF_REACH("default end");
#endif
}
void p_allow_all(void) {
#ifdef VF_PROOF
	struct rrr_mqtt_acl_entry last; struct rrr_mqtt_acl l; int some = nondet_bool(); l.ptr_first = l.ptr_last = some ? &last : NULL; l.node_count = some; last.ptr_next = NULL;
	char dup[2] = "#"; g_dup = nondet_bool() ? dup : NULL; g_t = (void *) &g_u2; g_t_ret = nondet_bool(); g_cl_ret = nondet_bool();
	int r = rrr_mqtt_acl_entry_collection_push_allow_all(&l);
	if (r == 0) ENSURES("last entry grants read and write for everything", l.ptr_last != NULL && l.ptr_last != &last && l.ptr_last->default_action == RRR_MQTT_ACL_ACTION_RW && l.ptr_last->first_token == (void *) &g_e2 && l.ptr_last->ptr_next == NULL && l.ptr_last->ptr_first == NULL
		&& l.ptr_first == (some ? &last : l.ptr_last) && (!some || last.ptr_next == l.ptr_last));
	else ENSURES("nothing added on failure", l.ptr_last == (some ? &last : NULL) && (!some || last.ptr_next == NULL));
	ENSURES("temporary tokens released", r == 0 ? g_destroyed == 1 : g_destroyed >= !g_t_ret && g_destroyed <= 2);
	VF_REACH("allow end");
#endif
}
#ifdef VF_NATIVE
static int level_eq(const char *a, size_t an, const char *b, size_t bn) { return an == bn && !memcmp(a, b, an); }
/* topic against filter, level by level */
static int ref_match(const char *f, const char *t) {
	for (;;) {
		size_t fl = strcspn(f, "/"), tl = strcspn(t, "/");
		if (fl == 1 && *f == '#') return *t != '$';
		if (fl == 1 && *f == '+') { if (*t == '$') return 0; }
		else if (!level_eq(f, fl, t, tl)) return 0;
		if (!f[fl] || !t[tl]) return !f[fl] && !t[tl];
		f += fl + 1; t += tl + 1;
	}
}
static char g_txt[8192]; static int g_n;
static void put(const char *s) { while (*s) g_txt[g_n++] = *s++; }
static void put_kw(const char *s) { for (; *s; s++) g_txt[g_n++] = vf_in8(0, 3) ? *s : (char) (*s | 32); }
static void junk(void) { switch (vf_in8(0, 7)) { case 0: put("# TOPIC x\n"); break; case 1: put("\n \t\n"); break; case 2: put("#\r\n  # DEFAULT WRITE\r"); break; case 3: put("\t"); break; default: break; } }
static const char *topics[] = { "a", "a/b", "b/a", "$x", "$x/a", "a//b", "a/b/c" }, *filters[] = { "#", "a", "a/+", "+/b", "+", "a/#", "$x/#", "b/a", "+/+/+", "a/b/c", "/" , "+/#" }, *users[] = { "u", "v1", "admin", "" };
static const char *acts[] = { "DENY", "READ", "WRITE" };
#endif
void b_file(void) {
#ifdef VF_NATIVE
	int ne = vf_in8(0, VF_BOUND), f[VF_BOUND], def[VF_BOUND], nu[VF_BOUND], u[VF_BOUND][4], ua[VF_BOUND][4], bad = 0; g_n = 0;
	for (int i = 0; i < ne; i++) {
		junk(); put_kw("TOPIC"); put(vf_bool() ? " " : "\t "); f[i] = vf_in8(0, 11); put(filters[f[i]]); put(vf_in8(0, 3) ? "\n" : "\r\n"); def[i] = 0; nu[i] = 0;
		int k = vf_in8(0, 4), hasdef = 0;
		for (int j = 0; j < k; j++) {
			junk(); int a = vf_in8(0, 2);
			if (vf_in8(0, 2) == 0) { if (hasdef && vf_in8(0, 7)) continue; bad |= hasdef; hasdef = 1; put_kw("DEFAULT"); def[i] = a; }
			else { put_kw("USER"); put(" "); int w = vf_in8(0, 2); put(users[w]); u[i][nu[i]] = w; ua[i][nu[i]++] = a; }
			put(" "); put_kw(acts[a]);
			if (vf_in8(0, 60) == 0) { put(" x"); bad = 1; }
			if (i + 1 < ne || j + 1 < k || vf_bool()) put("\n");
		}
	}
	char *txt = vf_new(g_n + 1u); memcpy(txt, g_txt, g_n); txt[g_n] = 0;
	struct rrr_parse_pos pos; rrr_parse_pos_init(&pos, txt, g_n);
	struct rrr_mqtt_acl l; memset(&l, 0, sizeof l);
	int r = __rrr_mqtt_acl_parse_topic_blocks(&l, &pos);
	ENSURES("accepted exactly when well formed", (r == 0) == !bad);
	if (r == 0) for (unsigned ti = 0; ti < 7; ti++) for (unsigned ui = 0; ui < 5; ui++) for (int level = 1; level <= 2; level++) {
		int act = 0; const char *user = ui < 4 ? users[ui] : NULL;
		for (int i = 0; i < ne; i++) if (ref_match(filters[f[i]], topics[ti])) { act = def[i]; for (int j = 0; j < nu[i]; j++) if (ui < 3 && u[i][j] == (int) ui) act = ua[i][j]; }
		struct rrr_mqtt_topic_token *tok; ENSURES("tokens", !rrr_mqtt_topic_tokenize(&tok, topics[ti]));
		ENSURES("access", rrr_mqtt_acl_check_access(&l, tok, level == 1 ? RRR_MQTT_ACL_ACTION_RO : RRR_MQTT_ACL_ACTION_RW, user, rrr_mqtt_topic_match_tokens_recursively) == (act >= level ? RRR_MQTT_ACL_RESULT_ALLOW : RRR_MQTT_ACL_RESULT_DENY));
		rrr_mqtt_topic_token_destroy(tok);
	}
	rrr_mqtt_acl_entry_collection_clear(&l);
#endif
}
/* any text: no memory error, and what is accepted grants nothing to anybody without naming WRITE or READ */
void b_junk(void) {
#ifdef VF_NATIVE
	static const char *part[] = { "TOPIC ", "DEFAULT ", "USER ", "u ", "READ", "DENY", "a/b", "#", "+", "\n", "\r", " ", "USER", "x", "\xc3", "\t", "TOPIC", "DEFAULT", "$", "deny", "read" };
	int n = vf_in8(0, VF_BOUND); g_n = 0; int any = 0;
	for (int i = 0; i < n; i++) put(part[vf_in8(0, 20)]);
	(void) any;
	char *txt = vf_new(g_n + 1u); memcpy(txt, g_txt, g_n); txt[g_n] = 0;
	struct rrr_parse_pos pos; rrr_parse_pos_init(&pos, txt, g_n);
	struct rrr_mqtt_acl l; memset(&l, 0, sizeof l);
	int r = __rrr_mqtt_acl_parse_topic_blocks(&l, &pos);
	if (r == 0) for (int ui = 0; ui < 2; ui++) { struct rrr_mqtt_topic_token *tok; ENSURES("tokens", !rrr_mqtt_topic_tokenize(&tok, "a/b"));
		ENSURES("no write access", rrr_mqtt_acl_check_access(&l, tok, RRR_MQTT_ACL_ACTION_RW, ui ? "u" : NULL, rrr_mqtt_topic_match_tokens_recursively) == RRR_MQTT_ACL_RESULT_DENY);
		rrr_mqtt_topic_token_destroy(tok); }
	rrr_mqtt_acl_entry_collection_clear(&l);
#endif
}
