//@ property C07
//@ proof p_parse unwind=2 funcs=rrr_hdlc_parse_frame native=0 solver=cadical timeout=400 cost=100 split=1 defs=-DWCASE=1
//@ proof p_parse unwind=2 funcs=rrr_hdlc_parse_frame native=0 solver=cadical timeout=400 cost=100 split=1 defs=-DWCASE=2
//@ proof p_parse unwind=2 funcs=rrr_hdlc_parse_frame native=0 solver=cadical timeout=400 cost=100 split=1 defs=-DWCASE=3
//@ proof p_init unwind=2 funcs=rrr_hdlc_parse_state_init,rrr_parse_pos_init
//@ proof p_length unwind=2 funcs=rrr_hdlc_get_export_length native=0
//@ proof p_export unwind=2 funcs=rrr_hdlc_export_frame native=0
//@ proof p_import unwind=2 funcs=__rrr_type_import_hdlc native=0 defs=-DVF_CPW_FIXED=0,-DVF_CPW_N=1
//@ bounded b_hdlc unwind=30 bound=12 fbound=250 nobmc=1 maxlen=700 always=1
//@ assume the data to export is small enough that twice its size fits in 32 bits (rrr_hdlc_get_export_length, which is always called first, refuses more than 4094 bytes)
#define VF_MEMCPY_WITNESS
#include "vf.h"
#include "rrr_types.h"
#include "parse.h"

/* specification: the HDLC receiver, one byte at a time */
/* the proof of the parser is split by the place of the witness byte: next to be written, written before, later */
#ifndef WCASE
#define WCASE 0
#endif
enum { S_IDLE, S_FRAME, S_ESC, S_DONE, S_ERR };
struct rx { int s; uint64_t n; uint64_t w; uint8_t byte; };
static void rx_push(struct rx *x, uint8_t c) {
	if (x->n == 4095) { x->s = S_ERR; return; }
	if (x->n == x->w) x->byte = c;
	x->n++;
}
static void rx_step(struct rx *x, uint8_t c) {
	if (x->s == S_IDLE) { if (c == 0x7e) x->s = S_FRAME; }
	else if (x->s == S_FRAME) {
		if (c == 0x7d) x->s = S_ESC;
		else if (c == 0x7e) { if (x->n) x->s = S_DONE; }
		else rx_push(x, c);
	}
	else if (x->s == S_ESC) { x->s = S_FRAME; rx_push(x, c ^ 0x20); }
}
#ifdef VF_PROOF
static struct rx g; static uint64_t g_pos, g_size; static const void *g_pp; static const char *g_data;
static uint64_t g_i, g_total; static uint64_t g_o; static char g_ov;
static int g_ret, g_parsed; static uint32_t g_n, g_dpos;
static const char *g_start; static uint64_t g_len; static char g_wbyte;
/* the specified encoding: each byte is put to the frame (position g_pos, the byte at the arbitrary
 * position g_o is remembered) and given to the receiver */
static char g_ovs; static int g_os;
static void put(uint8_t c) { if (g_pos == g_o) { g_ovs = (char) c; g_os = 1; } g_pos++; rx_step(&g, c); }
static void enc(uint8_t c) { if (c == 0x7e || c == 0x7d) { put(0x7d); put(c ^ 0x20); } else put(c); }
struct rrr_hdlc_parse_state;
static int rrr_hdlc_parse_frame__stub(struct rrr_hdlc_parse_state *state);
#define PARSE rrr_hdlc_parse_frame__real
#else
#define PARSE rrr_hdlc_parse_frame
#endif
VF_OPAQUE(rrr_hdlc_parse_frame)
#include "hdlc/hdlc.c"
#include "parse.c"
#ifdef VF_PROOF
/* contract of the parser as its caller sees it: done, incomplete or refused; when done, 1..4095 bytes of result */
static int rrr_hdlc_parse_frame__stub(struct rrr_hdlc_parse_state *state) {
	g_parsed++;
	CALLEE_PRE("parser starts fresh at the start of exactly the given bytes", state->parse_flag == RRR_HDLC_PARSE_STATE_IDLE && state->result_wpos == 0
		&& state->parse_pos->pos == 0 && state->parse_pos->data == g_start && state->parse_pos->size == g_len);
	state->parse_pos->pos = g_dpos;
	if (g_ret == 0) { state->result_wpos = g_n; g_wbyte = nondet_u8(); state->result[vf_cpw[0] < g_n ? vf_cpw[0] : 0] = g_wbyte; }
	return g_ret;
}
#endif
#include "type.c"

VF_LOOP(rrr_hdlc_parse_frame, 0,
	lval(state->parse_flag); lval(state->result_wpos); lval(state->parse_pos->pos); mem(state->result, sizeof(state->result)); var(g); var(g_pos);
	inv(same_input, (const void *) state->parse_pos == g_pp && state->parse_pos->data == g_data && state->parse_pos->size == g_size);
	inv(position, g_pos == state->parse_pos->pos && g_pos <= g_size);
	inv(receiver_state, (int) state->parse_flag == g.s && g.s >= S_IDLE && g.s <= S_ESC);
	inv(bytes, state->result_wpos == g.n && g.n <= 4095 && (g.w >= g.n || (uint8_t) state->result[g.w] == g.byte));
	at(ASSUME(WCASE == 0 || (WCASE == 1 && g.n == g.w) || (WCASE == 2 && g.n > g.w) || (WCASE == 3 && g.n < g.w)); if (g_pos < state->parse_pos->size) { rx_step(&g, (uint8_t) g_data[g_pos]); g_pos++; });
	dec(state->parse_pos->size - state->parse_pos->pos))
VF_LOOP(rrr_hdlc_get_export_length, 0,
	var(i); var(result_tmp); var(g_i); var(g_total);
	inv(sum, g_i == i && i <= data_size && result_tmp == g_total && g_total >= i && g_total <= 2 * (uint64_t) i);
	at(if (g_i < data_size) { g_total += (data[g_i] == 0x7e || data[g_i] == 0x7d) ? 2 : 1; g_i++; });
	dec(data_size - i))
VF_LOOP(rrr_hdlc_export_frame, 0,
	var(i); var(pos); mem(target, 2 * (uint64_t) data_size + 2); var(g); var(g_pos); var(g_i); var(g_ovs); var(g_os);
	pre(put(0x7e));
	inv(count, g_i == i && i <= data_size && pos == g_pos && g_pos > i && g_pos <= 2 * (uint64_t) i + 1);
	inv(receiver_has_the_data, g.s == S_FRAME && g.n == i && (g.w >= i || g.byte == (uint8_t) data[g.w]));
	inv(bytes_written, g_os == (g_o < g_pos) && target[g_o] == (g_os ? g_ovs : g_ov));
	at(if (g_i < data_size) { enc((uint8_t) data[g_i]); g_i++; });
	dec(data_size - i))

void p_parse(void) {
#ifdef VF_PROOF
	rrr_length n = VF_LEN32(0, VF_BOUND);
	char *d = vf_newbuf(n); g_data = d; g_size = n;
	struct rrr_hdlc_parse_state st; struct rrr_parse_pos pp;
	REQUIRES(st.result_wpos <= 4095 && (st.parse_flag == RRR_HDLC_PARSE_STATE_IDLE || st.parse_flag == RRR_HDLC_PARSE_STATE_FRAME || st.parse_flag == RRR_HDLC_PARSE_STATE_ESCAPE));
	st.parse_pos = &pp; g_pp = &pp; pp.data = d; pp.size = n; REQUIRES(pp.pos <= n);
	g.s = (int) st.parse_flag; g.n = st.result_wpos; g.w = nondet_u32(); REQUIRES(g.w <= 4094); g.byte = st.result[g.w]; g_pos = pp.pos;
	int r = PARSE(&st);
	ENSURES("done exactly when the receiver has a whole frame", (r == RRR_HDLC_OK) == (g.s == S_DONE));
	ENSURES("refused exactly when the frame is too long", (r == RRR_HDLC_SOFT_ERROR) == (g.s == S_ERR));
	ENSURES("incomplete exactly when all bytes are used and the frame has not ended", (r == RRR_HDLC_INCOMPLETE) == (g.s != S_DONE && g.s != S_ERR) && (r != RRR_HDLC_INCOMPLETE || g_pos == n));
	if (r != RRR_HDLC_SOFT_ERROR) ENSURES("consumed exactly the bytes used by the receiver", pp.pos == g_pos && g_pos <= n);
	if (r == RRR_HDLC_OK) ENSURES("the frame is exactly the unescaped bytes", st.result_wpos == g.n && g.n > 0 && (g.w >= g.n || (uint8_t) st.result[g.w] == g.byte));
	if (r == RRR_HDLC_INCOMPLETE) ENSURES("an incomplete frame is continued later", (int) st.parse_flag == g.s && st.result_wpos == g.n && (g.w >= g.n || (uint8_t) st.result[g.w] == g.byte));
	VF_REACH("parse end");
#endif
}
void p_init(void) {
	struct rrr_hdlc_parse_state st; struct rrr_parse_pos pp; rrr_length n = vf_u32(); char *d = vf_newbuf(1);
	rrr_parse_pos_init(&pp, d, n);
	rrr_hdlc_parse_state_init(&st, &pp);
	ENSURES("fresh state", st.parse_pos == &pp && pp.data == d && pp.size == n && pp.pos == 0 && st.parse_flag == RRR_HDLC_PARSE_STATE_IDLE && st.result_wpos == 0);
	VF_REACH("init end");
}
void p_length(void) {
#ifdef VF_PROOF
	rrr_length n = nondet_u32(), res = nondet_u32();
	char *d = vf_newbuf(n); g_i = 0; g_total = 0;
	int r = rrr_hdlc_get_export_length(&res, d, n);
	ENSURES("every byte counted", g_i == n);
	ENSURES("exact size with flags, or refused above the frame limit", r == 0 ? res == g_total + 2 && res <= 4096 : g_total + 2 > 4096);
	VF_REACH("length end");
#endif
}
void p_export(void) {
#ifdef VF_PROOF
	rrr_length n = nondet_u32(), w = nondet_u32();
	REQUIRES(n <= 0x3fffffff);
	char *d = vf_newbuf(n);
	char *t = vf_newbuf(2 * (uint64_t) n + 2);
	g.s = S_IDLE; g.n = 0; g.w = nondet_u32(); g_pos = 0; g_i = 0; g_o = nondet_u32(); REQUIRES(g_o < 2 * (uint64_t) n + 2); g_ov = t[g_o]; g_os = 0;
	REQUIRES(n <= 4094); /* rrr_hdlc_get_export_length refuses more */
	rrr_hdlc_export_frame(t, &w, d, n);
	ENSURES("receiver has all the data", g_i == n && g.s == S_FRAME && g.n == n && (g.w >= n || g.byte == (uint8_t) d[g.w]));
	put(0x7e);
	ENSURES("receiver has exactly the frame", n == 0 || (g.s == S_DONE && g.n == n));
	ENSURES("written size", w == g_pos);
	ENSURES("exactly the encoded bytes are written, none beyond", g_os == (g_o < w) && t[g_o] == (g_os ? g_ovs : g_ov));
	VF_REACH("export end");
#endif
}
void p_import(void) {
#ifdef VF_PROOF
	rrr_length n = VF_LEN32(0, VF_BOUND), parsed = nondet_u32();
	char *d = vf_newbuf(n); g_start = d; g_len = n; g_parsed = 0;
	struct rrr_type_value v; __CPROVER_havoc_object(&v); v.data = NULL;
	g_n = nondet_u32(); REQUIRES(g_n >= 1 && g_n <= 4095); g_dpos = nondet_u32(); REQUIRES(g_dpos <= n);
	g_ret = nondet_bool() ? 0 : nondet_bool() ? RRR_HDLC_INCOMPLETE : RRR_HDLC_SOFT_ERROR;
	size_t k = nondet_u32(); vf_cpw[0] = k; REQUIRES(k < g_n);
	int r = __rrr_type_import_hdlc(&v, &parsed, d, d + n);
	ENSURES("parsed once", g_parsed == 1);
	ENSURES("incomplete and refused frames are reported as such", g_ret == 0 || (r == (g_ret == RRR_HDLC_INCOMPLETE ? RRR_TYPE_PARSE_INCOMPLETE : RRR_TYPE_PARSE_SOFT_ERR) && v.data == NULL && parsed == 0));
	ENSURES("a whole frame is taken, unless memory runs out", g_ret != 0 || r == 0 || (r == RRR_TYPE_PARSE_HARD_ERR && v.data == NULL));
	if (r == 0) {
		ENSURES("the value is exactly the frame", v.total_stored_length == g_n && v.element_count == 1 && v.definition->type == RRR_TYPE_HDLC && parsed == g_dpos && v.data[k] == g_wbyte);
		VF_REACH("import end");
	}
#endif
}

/* bounded: streams of frames against a receiver and transmitter written independently, in any chunking, and through the array type */
void b_hdlc(void) {
#ifndef VF_PROOF
	static uint8_t st[5200], want[5000];
	unsigned n = 0, mode = vf_in8(0, 9);
	if (mode == 0) { n = vf_in16(4080, 4200); uint8_t f = vf_u8(); for (unsigned i = 0; i < n; i++) st[i] = f; st[0] = 0x7e; st[n - 1] = 0x7e; unsigned k = vf_in16(0, 4000); st[k] = vf_u8(); }
	else { n = vf_in8(0, VF_BOUND); for (unsigned i = 0; i < n; i++) { uint8_t k = vf_in8(0, 5); st[i] = k == 0 ? 0x7e : k == 1 ? 0x7d : k == 2 ? 0x5d + vf_in8(0,1) : vf_u8(); } }
	/* what the stream contains */
	unsigned i = 0, m = 0; int res = RRR_HDLC_INCOMPLETE;
	while (i < n && st[i] != 0x7e) i++;
	while (i < n && st[i] == 0x7e) i++;
	while (i < n) {
		uint8_t c = st[i++];
		if (c == 0x7e) { res = 0; break; }
		if (c == 0x7d) { if (i == n) break; c = st[i++] ^ 0x20; }
		if (m == 4095) { res = RRR_HDLC_SOFT_ERROR; break; }
		want[m++] = c;
		if (m == 1 && 0) break;
	}
	char *d = malloc(n ? n : 1); memcpy(d, st, n);
	/* chunked: the buffer grows between calls */
	struct rrr_parse_pos pp; struct rrr_hdlc_parse_state s;
	unsigned have = vf_in16(0, (uint16_t) n); rrr_parse_pos_init(&pp, d, have); rrr_hdlc_parse_state_init(&s, &pp);
	int r;
	for (;;) {
		char *e = malloc(have ? have : 1); memcpy(e, d, have); pp.data = e; pp.size = have;
		r = rrr_hdlc_parse_frame(&s); free(e);
		if (r != RRR_HDLC_INCOMPLETE || have == n) break;
		ENSURES("all available bytes used", pp.pos == have);
		have += vf_in8(1, 40); if (have > n) have = n;
	}
	ENSURES("result", r == res);
	ENSURES("consumed", pp.pos == i || r != 0);
	if (r == 0) ENSURES("frame", RRR_HDLC_DATA_SIZE(&s) == m && memcmp(RRR_HDLC_DATA(&s), want, m) == 0);
	{
		struct rrr_type_value v; memset(&v, 0, sizeof(v)); rrr_length parsed = 4711;
		r = __rrr_type_import_hdlc(&v, &parsed, d, d + n);
		ENSURES("field result", r == (res == 0 ? RRR_TYPE_PARSE_OK : res == RRR_HDLC_INCOMPLETE ? RRR_TYPE_PARSE_INCOMPLETE : RRR_TYPE_PARSE_SOFT_ERR));
		if (r == 0) {
			ENSURES("field", v.total_stored_length == m && v.element_count == 1 && parsed == i && memcmp(v.data, want, m) == 0);
			rrr_length len = 0, w = 0; unsigned esc = 0; for (unsigned k = 0; k < m; k++) esc += (want[k] == 0x7e || want[k] == 0x7d);
			r = __rrr_type_hdlc_get_export_length(&len, &v);
			ENSURES("export size", (r != 0) == (m + esc + 2 > 4096) && (r || len == m + esc + 2));
			if (r == 0) {
				char *o = malloc(len); 
				__rrr_type_hdlc_export(o, &w, &v);
				ENSURES("export writes the announced size", w == len);
				struct rrr_type_value u; memset(&u, 0, sizeof(u));
				ENSURES("exported frame is received", __rrr_type_import_hdlc(&u, &parsed, o, o + len) == 0 && parsed == len && u.total_stored_length == m && memcmp(u.data, want, m) == 0);
				free(u.data); free(o);
			}
			free(v.data);
		}
	}
	free(d);
#endif
}
