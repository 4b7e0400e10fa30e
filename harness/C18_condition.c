//@ property C18
//@ proof p_operator unwind=2 solver=z3 native=0 unwindset=spec_is.0:5,p_operator.0:22 funcs=__rrr_condition_evaluate_operator
//@ proof p_operator_signed unwind=2 solver=z3 native=0 flags=--no-signed-overflow-check,--no-undefined-shift-check unwindset=spec_is.0:5,p_operator_signed.0:22 funcs=__rrr_condition_evaluate_operator_signed
//@ proof p_ensure_signed unwind=2 native=0 funcs=__rrr_condition_evaluate_ensure_signed
//@ proof p_evaluate_op unwind=2 cost=20 native=0 funcs=__rrr_condition_evaluate_op
//@ proof p_table unwind=24 native=0 unwindset=spec_is.0:5 funcs=operators
//@ bounded b_operator unwind=2 nobmc=1 bound=8 always=1
//@ bounded b_expression unwind=2 nobmc=1 bound=12 maxlen=120 always=1
//@ assume the expression handed to the evaluation is one the interpreter accepted: every operator has its values before it (checked by the interpreter and by b_expression), shift amounts are 0..63 (others are undefined in C and not specified)
//@ assume p_evaluate_op: at most 24 entries on the evaluation stack (bounded; the search loop is by invariant)
//@ assume signed arithmetic wraps modulo 2^64 (undefined in C, as the compilers in use do it)
#include "vf.h"
#include "rrr_types.h"
#include "read_constants.h"
#include "parse.h"
#include "condition.h"
struct rrr_condition_op;
#ifdef VF_PROOF
/* arbitrary state: the two topmost values on the stack are at g_w1 < g_w2 */
static int64_t g_w1, g_w2; static int g_singular;
static uint64_t g_a, g_b, g_ret; static int g_fpe, g_calls, g_signed; static const void *g_op;
#endif
#include "helpers/string_builder.h"
#include "parse.c"
#include "condition.c"

#ifdef VF_PROOF
static uint64_t __rrr_condition_evaluate_operator__stub(int *fpe, uint64_t a, uint64_t b, const struct rrr_condition_op *op) {
	g_a = a; g_b = b; g_op = op; g_calls++; g_signed = 0; *fpe = g_fpe; return g_ret;
}
static int64_t __rrr_condition_evaluate_operator_signed__stub(int *fpe, int64_t a, int64_t b, const struct rrr_condition_op *op) {
	g_a = (uint64_t) a; g_b = (uint64_t) b; g_op = op; g_calls++; g_signed = 1; *fpe = g_fpe; return (int64_t) g_ret;
}
#define EV_U __rrr_condition_evaluate_operator__real
#define EV_S __rrr_condition_evaluate_operator_signed__real
#else
#define EV_U __rrr_condition_evaluate_operator
#define EV_S __rrr_condition_evaluate_operator_signed
#endif
VF_OPAQUE(__rrr_condition_evaluate_operator)
VF_OPAQUE(__rrr_condition_evaluate_operator_signed)

VF_LOOP(__rrr_condition_evaluate_op, 0,
	ptr(result_b, =(j < g_w2 ? &results[g_w2] : NULL)); ptr(result_a, =NULL); unchanged(fpe);
	/* the two topmost values: nothing evaluated above or between them */
	at(__CPROVER_assume(!(j > g_w2 && j < (int64_t) results_pos) || !results[j].is_evaluated));
	at(__CPROVER_assume(!(j > g_w1 && j < g_w2) || !results[j].is_evaluated));
	inv(position, j < (int64_t) results_pos && j >= (g_singular ? g_w2 : g_w1));
	inv(second, result_b == (j < g_w2 ? &results[g_w2] : NULL));
	inv(first, result_a == NULL);
	dec(j + 1))

#define NOPS (sizeof(operators) / sizeof(operators[0]) - 1)
static int spec_is(const struct rrr_condition_op *op, const char *s) { int i = 0; while (i < 4 && op->op[i] == s[i] && s[i]) i++; return i < 4 && op->op[i] == s[i]; }
/* the operators as C has them, by their spelling */
#ifdef VF_PROOF
#define VF_FITS(c) 1
#else
#define VF_FITS(c) (c)
#endif
#define SPEC(T) \
	if (spec_is(op, "<=")) return a <= b; if (spec_is(op, ">=")) return a >= b; if (spec_is(op, "<")) return a < b; if (spec_is(op, ">")) return a > b; \
	if (spec_is(op, "==")) return a == b; if (spec_is(op, "!=")) return a != b; \
	if (spec_is(op, "&&") || spec_is(op, "AND")) return a != 0 && b != 0; if (spec_is(op, "||") || spec_is(op, "OR")) return a != 0 || b != 0; \
	if (spec_is(op, "&")) return a & b; if (spec_is(op, "^")) return a ^ b; if (spec_is(op, "|")) return a | b; \
	if (spec_is(op, "~")) return ~b; \
	if (spec_is(op, "<<")) return (T) ((uint64_t) a << (b & 63)); if (spec_is(op, ">>")) return a >> (b & 63); \
	if (spec_is(op, "+")) return (T) ((uint64_t) a + (uint64_t) b); if (spec_is(op, "-")) return (T) ((uint64_t) a - (uint64_t) b); if (spec_is(op, "*")) return (T) ((uint64_t) a * (uint64_t) b); \
	if (spec_is(op, "/")) return a / b;
static uint64_t spec_u(const struct rrr_condition_op *op, uint64_t a, uint64_t b) { SPEC(uint64_t) return 0; }
static int64_t spec_s(const struct rrr_condition_op *op, int64_t a, int64_t b) { SPEC(int64_t) return 0; }
static int spec_shift(const struct rrr_condition_op *op) { return spec_is(op, "<<") || spec_is(op, ">>"); }

static void operator_u(unsigned k, uint64_t a, uint64_t b) {
	const struct rrr_condition_op *op = &operators[k];
	int fpe = 7, div = spec_is(op, "/");
	REQUIRES(!spec_shift(op) || b < 64);
	uint64_t r = EV_U(&fpe, a, b, op);
	ENSURES("unsigned: refused exactly when divided by zero", fpe == (div && b == 0));
	ENSURES("unsigned: the operator's result", fpe || r == spec_u(op, a, b));
}
static void operator_s(unsigned k, int64_t a, int64_t b) {
	const struct rrr_condition_op *op = &operators[k];
	int fpe = 7, div = spec_is(op, "/");
	REQUIRES(!spec_shift(op) || (b >= 0 && b < 64));
	/* results that do not fit are undefined in C */
	int64_t t;
	REQUIRES(VF_FITS(!(spec_is(op, "+") && __builtin_add_overflow(a, b, &t)) && !(spec_is(op, "-") && __builtin_sub_overflow(a, b, &t)) && !(spec_is(op, "*") && __builtin_mul_overflow(a, b, &t)) && !(spec_is(op, "<<") && a < 0)));
	int64_t r = EV_S(&fpe, a, b, op);
	ENSURES("signed: refused exactly when the quotient does not exist", fpe == (div && (b == 0 || (a == INT64_MIN && b == -1))));
	ENSURES("signed: the operator's result", fpe || r == spec_s(op, a, b));
}
void p_operator(void) {
#ifdef VF_PROOF
	for (unsigned k = 2; k < NOPS; k++) operator_u(k, nondet_u64(), nondet_u64());
	VF_REACH("operator end");
#endif
}
void p_operator_signed(void) {
#ifdef VF_PROOF
	for (unsigned k = 2; k < NOPS; k++) operator_s(k, (int64_t) nondet_u64(), (int64_t) nondet_u64());
	VF_REACH("operator signed end");
#endif
}
void p_ensure_signed(void) {
#ifdef VF_PROOF
	struct rrr_condition_running_result x; int fpe = 7;
	x.result = nondet_u64(); x.is_signed = nondet_bool();
	int64_t r = __rrr_condition_evaluate_ensure_signed(&fpe, &x);
	ENSURES("the value as signed number, refused exactly when it does not fit", fpe == (!x.is_signed && x.result >> 63) && (fpe || (uint64_t) r == x.result));
	VF_REACH("ensure signed end");
#endif
}
#ifdef VF_PROOF
static struct rrr_condition_running_result resbuf[24];
#endif
void p_evaluate_op(void) {
#ifdef VF_PROOF
	__CPROVER_havoc_object(resbuf);
	uint32_t pos = nondet_u32(); REQUIRES(pos >= 1 && pos <= 24);
	struct rrr_condition_running_result *results = resbuf, A, B, P;
	/* the entry of the operator itself, above all values */
	P.result = nondet_u64(); P.is_evaluated = 0; P.is_signed = 0;
	struct rrr_condition_op opx; opx.prio = nondet_u8(); const struct rrr_condition_op *op = &opx;
	g_singular = op->prio == RRR_CONDITION_PRIORITY_SINGULAR;
	g_w2 = nondet_u32(); g_w1 = nondet_u32();
	REQUIRES(g_w2 < pos && (g_singular || g_w1 < g_w2));
	if (g_singular) g_w1 = -1;
	REQUIRES(results[g_w2].is_evaluated && (g_singular || results[g_w1].is_evaluated));
	B = results[g_w2]; if (!g_singular) A = results[g_w1]; else { A.result = 0; A.is_signed = 0; }
	/* an arbitrary other entry */
	uint32_t w = nondet_u32(); REQUIRES(w < pos && w != g_w2 && w != g_w1);
	int We = results[w].is_evaluated;
	g_ret = nondet_u64(); g_fpe = nondet_bool(); g_calls = 0;
	uint64_t res = 0;
	int r = __rrr_condition_evaluate_op(&res, op, &P, results, pos);
	int sgn = A.is_signed || B.is_signed;
	int ovf = sgn && ((!A.is_signed && A.result >> 63) || (!B.is_signed && B.result >> 63));
	ENSURES("an operand that does not fit is refused", !ovf || r == RRR_CONDITION_SOFT_ERROR);
	ENSURES("otherwise the operator is applied once to the two topmost values, signed when one of them is", ovf || (g_calls == 1 && g_signed == !!sgn && g_a == A.result && g_b == B.result && g_op == op));
	ENSURES("refused exactly when the operator refuses", ovf || (r == 0) == !g_fpe);
	if (r == 0) {
		ENSURES("the result is the operator's", res == g_ret && P.result == g_ret && P.is_evaluated && !P.is_signed == !sgn);
		ENSURES("the operands are consumed", !results[g_w2].is_evaluated && (g_singular || !results[g_w1].is_evaluated));
	}
	ENSURES("no other value is consumed", results[w].is_evaluated == We);
	VF_REACH("evaluate op end");
#endif
}
/* precedence as in C, by spelling */
static int spec_prio(const struct rrr_condition_op *op) {
	if (spec_is(op, "~")) return 1; if (spec_is(op, "*") || spec_is(op, "/")) return 2; if (spec_is(op, "+") || spec_is(op, "-")) return 3;
	if (spec_is(op, "<<") || spec_is(op, ">>")) return 4; if (spec_is(op, "<") || spec_is(op, ">") || spec_is(op, "<=") || spec_is(op, ">=")) return 5;
	if (spec_is(op, "==") || spec_is(op, "!=")) return 6; if (spec_is(op, "&")) return 7; if (spec_is(op, "^")) return 8; if (spec_is(op, "|")) return 9;
	if (spec_is(op, "&&") || spec_is(op, "AND")) return 10; return 11;
}
void p_table(void) {
#ifdef VF_PROOF
	unsigned i = nondet_u32(), j = nondet_u32(); REQUIRES(i >= 2 && i < NOPS && j >= 2 && j < NOPS);
	ENSURES("operators bind as in C", (operators[i].prio < operators[j].prio) == (spec_prio(&operators[i]) < spec_prio(&operators[j])));
	ENSURES("operators bind as in C (equal)", (operators[i].prio == operators[j].prio) == (spec_prio(&operators[i]) == spec_prio(&operators[j])));
	VF_REACH("table end");
#endif
}
void b_operator(void) {
	unsigned k = vf_in8(2, NOPS - 1);
	uint64_t a = vf_u64() >> vf_in8(0, 63), b = vf_u64() >> vf_in8(0, 63);
	if (vf_bool()) a = -a; if (vf_bool()) b = -b; if (vf_in8(0, 7) == 0) b = a;
	if (spec_shift(&operators[k])) b &= 63;
	if (vf_bool()) operator_u(k, a, b); else operator_s(k, (int64_t) a, (int64_t) b);
}
#ifdef VF_NATIVE
struct val { uint64_t v; int s, err; };
static struct { uint64_t v; int s; } tag[2];
static const char *rp;
static const char *const lv[12][5] = {{0},{0},{"*","/"},{"+","-"},{"<<",">>"},{"<=",">=","<",">"},{"==","!="},{"&"},{"^"},{"|"},{"&&","AND"},{"||","OR"}};
static struct val ref(int l);
static struct val ref_prim(void) {
	struct val r = {0, 0, 0};
	while (*rp == ' ') rp++;
	if (*rp == '(') { rp++; r = ref(11); while (*rp == ' ') rp++; rp++; return r; }
	if (*rp == '~') { rp++; r = ref_prim(); r.v = ~r.v; return r; }
	if (*rp == '{') { int t = rp[1] == 'b'; rp += 3; r.v = tag[t].v; r.s = tag[t].s; return r; }
	if (*rp == '-') { r.v = (uint64_t) strtoll(rp, (char **) &rp, 10); r.s = 1; return r; }
	if (rp[0] == '0' && rp[1] == 'x') { r.v = strtoull(rp + 2, (char **) &rp, 16); return r; }
	r.v = strtoull(rp, (char **) &rp, 10); return r;
}
static struct val ref(int l) {
	if (l < 2) return ref_prim();
	struct val a = ref(l - 1);
	for (;;) {
		while (*rp == ' ') rp++;
		const char *o = NULL;
		for (int i = 0; i < 5 && lv[l][i]; i++) {
			size_t n = strlen(lv[l][i]);
			if (strncmp(rp, lv[l][i], n)) continue;
			if (n == 1 && strchr("<>&|", *rp) && (rp[1] == *rp || rp[1] == '=')) continue;
			o = lv[l][i]; break;
		}
		if (!o) return a;
		rp += strlen(o);
		struct val b = ref(l - 1);
		struct rrr_condition_op op = {{0}, 0}; memcpy(op.op, o, strlen(o));
		if (a.err || b.err) { a.err = a.err > b.err ? a.err : b.err; continue; }
		if (spec_shift(&op) && b.v > 63) { a.err = 2; continue; }
		if (a.s || b.s) {
			int64_t t, x = (int64_t) a.v, y = (int64_t) b.v;
			if ((!a.s && a.v >> 63) || (!b.s && b.v >> 63)) { a.err = 1; continue; }
			if (*o == '/' && (y == 0 || (x == INT64_MIN && y == -1))) { a.err = 1; continue; }
			if ((*o == '+' && __builtin_add_overflow(x, y, &t)) || (*o == '-' && __builtin_sub_overflow(x, y, &t)) || (*o == '*' && __builtin_mul_overflow(x, y, &t)) || (o[0] == '<' && o[1] == '<')) { a.err = 2; continue; }
			a.v = (uint64_t) spec_s(&op, x, y); a.s = 1;
		}
		else {
			if (*o == '/' && b.v == 0) { a.err = 1; continue; }
			a.v = spec_u(&op, a.v, b.v);
		}
	}
}
static char txt[600]; static unsigned tn; static int budget;
static void put(const char *s) { size_t n = strlen(s); if (tn + n < sizeof(txt) - 2) { memcpy(txt + tn, s, n); tn += n; } }
static void gen(int depth);
static void gen_prim(int depth) {
	char b[40];
	switch (vf_in8(0, 9)) {
		case 0: case 1: if (depth > 0) { put("("); gen(depth - 1); put(")"); return; } /* fall through */
		case 2: if (depth > 0) { put("~"); gen_prim(depth - 1); return; } /* fall through */
		case 3: put("{a}"); return;
		case 4: put("{b}"); return;
		case 5: snprintf(b, sizeof(b), "-%u", (unsigned) vf_u8()); put(b); return;
		case 6: snprintf(b, sizeof(b), "0x%llx", (unsigned long long) vf_u64() >> vf_in8(0, 63)); put(b); return;
		case 7: snprintf(b, sizeof(b), "%llu", (unsigned long long) vf_u64() >> vf_in8(0, 63)); put(b); return;
		default: snprintf(b, sizeof(b), "%u", (unsigned) vf_in8(0, 4)); put(b); return;
	}
}
static void gen(int depth) {
	gen_prim(depth);
	while (budget > 0 && vf_in8(0, 2) != 0) {
		budget--;
		int l = vf_in8(2, 11), i = vf_in8(0, 3); while (!lv[l][i]) i--;
		put(" "); put(lv[l][i]); put(" ");
		gen_prim(depth);
	}
}
static int name_cb(RRR_CONDITION_NAME_EVALUATE_CALLBACK_ARGS) { (void) arg; int t = name[0] == 'b'; ENSURES("names are passed without braces", (name[0] == 'a' || name[0] == 'b') && name[1] == 0); *result = tag[t].v; *is_signed = tag[t].s; return 0; }
#endif
void b_expression(void) {
#ifdef VF_NATIVE
	tn = 0; budget = VF_BOUND;
	for (int i = 0; i < 2; i++) { tag[i].v = vf_u64() >> vf_in8(0, 63); tag[i].s = vf_bool(); if (tag[i].s && vf_bool()) tag[i].v = -tag[i].v; }
	put("("); gen(3); put(")"); REQUIRES(tn < sizeof(txt) - 80); txt[tn] = 0;
	rp = txt; struct val e = ref_prim();
	REQUIRES(e.err != 2 && *rp == 0);
	struct rrr_condition c, c2; memset(&c, 0, sizeof(c)); memset(&c2, 0, sizeof(c2));
	ENSURES("every well-formed expression is accepted", rrr_condition_interpret_raw(&c, txt, tn) == 0);
	uint64_t r = 0, r2 = 0;
	int ret = rrr_condition_evaluate(&r, &c, name_cb, NULL);
	ENSURES("evaluation fails exactly when an operation has no result", (ret != 0) == (e.err != 0));
	if (!ret && r != e.v) fprintf(stderr, "%s = %lld, not %lld\n", txt, (long long) e.v, (long long) r);
	ENSURES("the value of the expression as in C", ret || r == e.v);
	ENSURES("a clone evaluates to the same", rrr_condition_clone(&c2, &c) == 0 && rrr_condition_evaluate(&r2, &c2, name_cb, NULL) == ret && (ret || r2 == r));
	rrr_condition_clear(&c); rrr_condition_clear(&c2);
#endif
}
