//@ property C08
//@ proof p_target unwind=2 native=0 funcs=__rrr_websocket_get_target_size
//@ proof p_mask unwind=2 native=0 funcs=__rrr_websocket_payload_mask_unmask
//@ proof p_interpret unwind=2 native=0 funcs=__rrr_websocket_receive_callback_interpret_step,__rrr_websocket_receive_callback_fragmentation_step,__rrr_websocket_receive_callback_final_step
//@ proof p_send unwind=16 native=0 funcs=__rrr_websocket_transport_ctx_frame_send
//@ proof p_enqueue unwind=2 native=0 funcs=rrr_websocket_frame_enqueue
//@ proof p_timeout unwind=2 solver=z3 native=0 funcs=rrr_websocket_check_timeout,rrr_websocket_enqueue_ping_if_needed
//@ bounded b_receive unwind=2 nobmc=1 bound=8 maxlen=300 always=1
//@ bounded b_send unwind=2 nobmc=1 bound=6 maxlen=200 always=1
//@ assume the transport delivers the bytes pushed to it in order; length-carrying strings by contract (append adds the bytes to the end)
//@ assume unaligned loads of 16, 32 and 64 bits are done as the machine does them (the alignment check of UBSan is off)
#include "vf.h"
#include "rrr_types.h"
#include "read.h"
#include "helpers/nullsafe_str.h"
#include "websocket/websocket.h"
#include "util/rrr_time.h"
#include "util/macro_utils.h"
#include "util/gnu.h"
#include "rrr_inttypes.h"
#undef RRR_ASSERT
#define RRR_ASSERT(a, b) /* (it takes the size of a function, which only gcc and clang define) */
static uint64_t g_now;
#ifdef VF_PROOF
uint64_t rrr_time_get_64(void) { return g_now; }
static int g_rand; int rrr_rand(void) { return g_rand; }
static const void *g_push1, *g_push2; static uint8_t g_head[32]; static uint64_t g_len1, g_len2; static int g_push_n, g_push_ret[2]; static uint8_t g_at_w; static uint64_t g_w;
int rrr_net_transport_ctx_send_push_const(struct rrr_net_transport_handle *h, const void *d, rrr_biglength n) {
	g_push_n++;
	if (g_push_n == 1) { g_push1 = d; g_len1 = n; CALLEE_PRE("header size", n <= 14); for (unsigned i = 0; i < 14; i++) if (i < n) g_head[i] = ((const uint8_t *) d)[i]; return g_push_ret[0]; }
	g_push2 = d; g_len2 = n; CALLEE_PRE("payload readable", VF_R_OK(d, n)); if (g_w < n) g_at_w = ((const uint8_t *) d)[g_w];
	return g_push_ret[1];
}
/* strings by contract */
struct rrr_nullsafe_str { const void *p; uint64_t n; int id; };
static struct rrr_nullsafe_str g_frag, g_fresh; static int g_frag_gone, g_new_ret, g_app_ret, g_app_n, g_ext_ret; static const void *g_app_p; static uint64_t g_app_len; static void *g_app_to; static char *g_ext;
void rrr_nullsafe_str_destroy_if_not_null(struct rrr_nullsafe_str **s) { if (*s) { CALLEE_PRE("the fragment buffer", *s == &g_frag || *s == &g_fresh); g_frag_gone = 1; } *s = NULL; }
int rrr_nullsafe_str_new_or_replace_empty(struct rrr_nullsafe_str **s) { CALLEE_PRE("new buffer", *s == NULL); if (g_new_ret) return 1; *s = &g_fresh; return 0; }
int rrr_nullsafe_str_append_raw(struct rrr_nullsafe_str *s, const void *p, rrr_nullsafe_len n) { g_app_n++; g_app_to = s; g_app_p = p; g_app_len = n; return g_app_ret; }
int rrr_nullsafe_str_with_tmp_str_do(const void *p, rrr_nullsafe_len n, int (*cb)(const struct rrr_nullsafe_str *, void *), void *arg) { struct rrr_nullsafe_str t; t.p = p; t.n = n; t.id = 7; return cb(&t, arg); }
int rrr_nullsafe_str_with_str_do(const struct rrr_nullsafe_str *s, int (*cb)(const struct rrr_nullsafe_str *, void *), void *arg) { return cb(s, arg); }
rrr_nullsafe_len rrr_nullsafe_str_len(const struct rrr_nullsafe_str *s) { return s->n; }
static const void *g_ext_p; static uint64_t g_ext_n;
int rrr_nullsafe_str_extract_append_null(char **r, const struct rrr_nullsafe_str *s) { g_ext_p = s->p; g_ext_n = s->n; if (g_ext_ret) return 1; *r = g_ext; return 0; }
static int g_fin_n, g_fin_ret; static uint8_t g_fin_op; static const struct rrr_nullsafe_str *g_fin_s; static const void *g_fin_p; static uint64_t g_fin_len; static int g_fin_id;
static int final_cb(uint8_t op, const struct rrr_nullsafe_str *s, void *arg) { g_fin_n++; g_fin_op = op; g_fin_s = s; g_fin_p = s->p; g_fin_len = s->n; g_fin_id = s->id; return g_fin_ret; }
static struct rrr_websocket_state *g_st; static uint8_t g_enq_op; static int g_enq_n, g_enq_ret; static const char *g_enq_p; static uint64_t g_enq_len;
int rrr_websocket_frame_enqueue__stub(struct rrr_websocket_state *s, uint8_t op, char **p, uint64_t n) { CALLEE_PRE("state", s == g_st); g_enq_n++; g_enq_op = op; g_enq_p = p ? *p : NULL; g_enq_len = n; if (g_enq_ret) return 1; if (p) *p = NULL; return 0; }
static uint32_t g_mkey; static uint8_t *g_mp; static uint64_t g_mn; static int g_mask_n;
static void __rrr_websocket_payload_mask_unmask__stub(uint8_t *p, rrr_biglength n, uint32_t key) { g_mask_n++; g_mp = p; g_mn = n; g_mkey = key; }
#define R(f) f##__real
#else
uint64_t rrr_time_get_64(void) { return 5; }
int rrr_rand(void) { static unsigned r = 1; r = r * 1103515245u + 12345u; return (int) (r >> 1); }
#include "helpers/nullsafe_str.c"
#define R(f) f
static char g_out[70000 * 6]; static uint64_t g_out_n;
int rrr_net_transport_ctx_send_push_const(struct rrr_net_transport_handle *h, const void *d, rrr_biglength n) { (void) h; memcpy(g_out + g_out_n, d, n); g_out_n += n; return 0; }
int rrr_net_transport_ctx_get_handle(struct rrr_net_transport_handle *h) { (void) h; return 1; }
#endif
/* C08 masking: byte i is combined with byte i mod 4 of the key, in network order */
#define KEYB(key, i) ((uint8_t) ((key) >> (24 - 8 * ((i) & 3))))
#ifdef VF_PROOF
static uint8_t g_v0;
#endif
VF_OPAQUE(rrr_websocket_frame_enqueue)
VF_OPAQUE(__rrr_websocket_payload_mask_unmask)
#include "util/rrr_endian.c"
#include "websocket/websocket.c"
VF_LOOP(__rrr_websocket_payload_mask_unmask, 0,
	mem(payload, payload_size);
	inv(bytes so far are combined with the key and the others are not,
		i <= payload_size && (!(g_w < payload_size) || payload[g_w] == (g_w < i ? (uint8_t) (g_v0 ^ KEYB(masking_key_h, g_w)) : g_v0)));
	dec(payload_size - i))

/* C08 header: the two first bytes, then the length of 0, 2 or 8 bytes, then the key if there is one */
void p_target(void) {
#ifdef VF_PROOF
	static struct rrr_read_session rs; static struct rrr_websocket_state st; struct rrr_websocket_callback_data cd; cd.ws_state = &st; cd.callback = final_cb; cd.callback_arg = NULL;
	uint64_t n = nondet_u64(); REQUIRES(n >= 1 && n <= 0x7fffffff); uint8_t *b = (uint8_t *) vf_newbuf(n > 14 ? n : 14); rs.rx_buf_ptr = (char *) b; rs.rx_buf_wpos = n; rs.target_size = 77; g_now = nondet_u64();
	int r = __rrr_websocket_get_target_size(&rs, &cd);
	unsigned l7 = b[1] & 127, mask = b[1] >> 7; uint64_t ext = l7 == 126 ? 2 : l7 == 127 ? 8 : 0, hl = 2 + ext + (mask ? 4 : 0);
	if (n < 2 || n < 2 + ext || n < hl) {
		/* (a length which is too big may be refused before the key has arrived) */
		ENSURES("incomplete header: waits", (r == RRR_READ_INCOMPLETE) && rs.target_size == 77);
	} else {
		uint64_t pl = l7 == 126 ? (uint64_t) b[2] << 8 | b[3] : l7 == 127 ? (uint64_t) b[2] << 56 | (uint64_t) b[3] << 48 | (uint64_t) b[4] << 40 | (uint64_t) b[5] << 32 | (uint64_t) b[6] << 24 | (uint64_t) b[7] << 16 | (uint64_t) b[8] << 8 | b[9] : l7;
		uint64_t k = 2 + ext; uint32_t key = (uint32_t) b[k] << 24 | (uint32_t) b[k + 1] << 16 | (uint32_t) b[k + 2] << 8 | b[k + 3];
		ENSURES("length refused exactly when the frame does not fit", (r == RRR_READ_SOFT_ERROR) == (pl > (uint64_t) SSIZE_MAX - hl));
		ENSURES("accepted otherwise", r == RRR_READ_OK || r == RRR_READ_SOFT_ERROR);
		if (r == RRR_READ_OK) {
			struct rrr_websocket_header *h = &st.receive_state.header;
			ENSURES("size of the frame", rs.target_size == hl + pl && rs.read_complete_method == RRR_READ_COMPLETE_METHOD_TARGET_LENGTH);
			ENSURES("header", h->fin == b[0] >> 7 && h->opcode == (b[0] & 15) && h->rsv1 == (b[0] >> 6 & 1) && h->rsv2 == (b[0] >> 5 & 1) && h->rsv3 == (b[0] >> 4 & 1) && h->mask == mask && h->header_len == hl && h->payload_len == pl);
			ENSURES("key", !mask || h->masking_key == key);
			ENSURES("time of last reception", st.last_receive_time == g_now);
		}
	}
	ENSURES("received bytes unchanged", rs.rx_buf_ptr == (char *) b && rs.rx_buf_wpos == n);
	VF_REACH("target end");
#endif
}
void p_mask(void) {
#ifdef VF_PROOF
	uint64_t n = vf_in64(0, 0x7fffffffffff); uint8_t *p = (uint8_t *) vf_newbuf(n); uint32_t key = nondet_u32(); g_w = nondet_u64(); if (g_w < n) g_v0 = p[g_w];
	R(__rrr_websocket_payload_mask_unmask)(p, n, key);
	if (g_w < n) ENSURES("each byte combined with its byte of the key", p[g_w] == (uint8_t) (g_v0 ^ KEYB(key, g_w)));
	VF_REACH("mask end");
#endif
}
/* C08 receiving: what a frame does, by its opcode and the message being assembled */
void p_interpret(void) {
#ifdef VF_PROOF
	static struct rrr_read_session rs; static struct rrr_websocket_state st; struct rrr_websocket_callback_data cd; cd.ws_state = &st; cd.callback = final_cb; cd.callback_arg = NULL; g_st = &st;
	struct rrr_websocket_header *h = &st.receive_state.header; h->fin = nondet_bool(); h->opcode = nondet_u8() & 15; h->mask = nondet_bool(); h->header_len = vf_in8(2, 14); h->masking_key = nondet_u32();
	uint64_t pl = nondet_u64(); REQUIRES(pl <= 0x1ffffffff); h->payload_len = pl; char *b = vf_newbuf(h->header_len + pl), *pay = b + h->header_len; rs.rx_buf_ptr = b; rs.rx_buf_wpos = h->header_len + pl;
	/* state of the assembly: a message is in progress exactly when there is a buffer, it then has the opcode of its first frame */
	int prog = nondet_bool(); st.receive_state.fragment_buffer_nullsafe = prog ? &g_frag : NULL; uint8_t op0 = st.last_receive_opcode = prog ? (nondet_bool() ? 1 : 2) : 0; g_frag.id = 8; g_fresh.id = 9; g_frag.n = nondet_u64();
	st.waiting_for_pong = nondet_bool(); int wait0 = st.waiting_for_pong;
	g_new_ret = nondet_bool(); g_app_ret = nondet_bool(); g_ext_ret = nondet_bool(); g_enq_ret = nondet_bool(); g_fin_ret = nondet_u32(); g_ext = (malloc)(1); REQUIRES(g_ext != NULL);
	uint8_t op = h->opcode, fin = h->fin, mask = h->mask; uint32_t key = h->masking_key;
	int r = __rrr_websocket_receive_callback_interpret_step(&rs, &cd);
	ENSURES("unmasked exactly when it was masked, once", g_mask_n == mask && (!mask || (g_mp == (uint8_t *) pay && g_mn == pl && g_mkey == key)));
	if (op >= 8) {
		int ok = (op == 8 || op == 9 || op == 10) && pl <= 125 && fin;
		ENSURES("control frames never reach the user", g_fin_n == 0);
		ENSURES("control frames which are unknown, fragmented or too long are refused", ok || (r == RRR_READ_SOFT_ERROR && g_enq_n == 0 && st.waiting_for_pong == wait0));
		if (ok) {
			ENSURES("the message in progress is left alone", g_frag_gone == 0 && g_app_n == 0 && st.receive_state.fragment_buffer_nullsafe == (prog ? &g_frag : NULL) && st.last_receive_opcode == op0);
			ENSURES("close ends the connection", op != 8 || (r == RRR_READ_EOF && g_enq_n == 0));
			ENSURES("a ping is answered once by a pong with its payload, unless memory is out", op != 9 || (r == 0 ? g_enq_n == 1 && g_enq_op == 10 && g_enq_len == pl && (pl == 0 ? g_enq_p == NULL : g_enq_p == g_ext && g_ext_p == pay && g_ext_n == pl) : g_enq_ret || g_ext_ret));
			ENSURES("a pong is noted", op != 10 || (r == 0 && st.waiting_for_pong == 0 && g_enq_n == 0));
		}
	} else if (op > 2 || (op == 0 && !prog) || (op != 0 && prog)) ENSURES("unknown opcode, continuation of nothing and a new message before the last fragment of the previous one are refused", r == RRR_READ_SOFT_ERROR && g_fin_n == 0 && g_enq_n == 0);
	else if (pl > RRR_LENGTH_MAX) ENSURES("too long", r == RRR_READ_SOFT_ERROR && g_fin_n == 0);
	else {
		uint8_t mop = op ? op : op0;
		ENSURES("no reply", g_enq_n == 0 && st.waiting_for_pong == wait0);
		if (!fin) {
			ENSURES("not delivered before the last fragment", g_fin_n == 0);
			if (r == 0) ENSURES("the fragment is appended", g_app_n == 1 && g_app_to == (prog ? &g_frag : &g_fresh) && g_app_p == pay && g_app_len == pl && st.receive_state.fragment_buffer_nullsafe == g_app_to && !g_frag_gone && st.last_receive_opcode == mop);
			else ENSURES("given up only when memory is out", g_new_ret || g_app_ret);
		} else if (!prog) {
			ENSURES("delivered at once", g_fin_n == 1 && g_fin_op == mop && g_fin_id == 7 && g_fin_p == pay && g_fin_len == pl && r == g_fin_ret && g_app_n == 0);
		} else if (g_fin_n == 0) ENSURES("given up only when memory is out", g_app_ret && r != 0);
		else ENSURES("the last fragment is appended, then all of it delivered", g_app_n == 1 && g_app_to == &g_frag && g_app_p == pay && g_app_len == pl && g_fin_n == 1 && g_fin_s == &g_frag && g_fin_op == mop && r == g_fin_ret);
		if (fin) ENSURES("no message in progress afterwards", st.receive_state.fragment_buffer_nullsafe == NULL && st.last_receive_opcode == 0);
	}
	VF_REACH("interpret end");
#endif
}
void p_send(void) {
#ifdef VF_PROOF
	static struct rrr_websocket_frame f; uint64_t n = vf_in64(0, 0x7fffffffffff); uint8_t op = f.header.opcode = nondet_u8() & 15, m = f.header.mask = nondet_bool(); f.header.payload_len = n; f.payload = vf_newbuf(n); char *p0 = f.payload;
	g_w = nondet_u64(); g_rand = nondet_u32(); g_push_ret[0] = nondet_bool(); g_push_ret[1] = nondet_bool();
	int r = __rrr_websocket_transport_ctx_frame_send((void *) &f, &f);
	unsigned ext = n < 126 ? 0 : n <= 65535 ? 2 : 8; uint64_t l = 0; for (unsigned i = 0; i < 8; i++) if (i < ext) l = l << 8 | g_head[2 + i];
	ENSURES("header: last frame, opcode, length in the shortest form", g_push_n >= 1 && g_head[0] == (0x80 | op) && g_head[1] == ((m ? 0x80 : 0) | (n < 126 ? n : n <= 65535 ? 126 : 127)) && (ext == 0 || l == n) && g_len1 == 2 + ext + (m ? 4 : 0));
	uint32_t key = (uint32_t) g_head[2 + ext] << 24 | (uint32_t) g_head[3 + ext] << 16 | (uint32_t) g_head[4 + ext] << 8 | g_head[5 + ext];
	if (g_push_ret[0]) ENSURES("payload not sent after a failed header", g_push_n == 1 && r != 0);
	else if (n == 0) ENSURES("no payload", g_push_n == 1 && r == 0 && g_mask_n == 0);
	else {
		ENSURES("payload", g_push_n == 2 && g_push2 == p0 && g_len2 == n && (r != 0) == (g_push_ret[1] != 0));
		ENSURES("masked once with the key sent, or not at all", g_mask_n == m && (!m || (g_mp == (uint8_t *) p0 && g_mn == n && g_mkey == key)));
	}
	VF_REACH("send end");
#endif
}
void p_enqueue(void) {
#ifdef VF_PROOF
	static struct rrr_websocket_state st; static struct rrr_websocket_frame last; int some = nondet_bool(); st.send_queue.ptr_first = st.send_queue.ptr_last = some ? &last : NULL; st.do_mask_outgoing_frames = nondet_u32();
	char x, *p = nondet_bool() ? &x : NULL, *p0 = p; uint8_t op = nondet_u8(); uint64_t n = nondet_u64(); int nul = nondet_bool();
	int r = R(rrr_websocket_frame_enqueue)(&st, op, nul ? NULL : &p, n);
	struct rrr_websocket_frame *f = st.send_queue.ptr_last;
	if (r == 0) ENSURES("last in the queue, with the payload which is taken over", f != NULL && f != &last && f->ptr_next == NULL && (some ? last.ptr_next == f && st.send_queue.ptr_first == &last : st.send_queue.ptr_first == f) && f->header.opcode == op && f->header.payload_len == n && f->payload == (nul ? NULL : p0) && (nul || p == NULL) && f->header.mask == (st.do_mask_outgoing_frames != 0));
	else ENSURES("nothing taken over on failure", p == p0 && st.send_queue.ptr_last == (some ? &last : NULL));
	VF_REACH("enqueue end");
#endif
}
void p_timeout(void) {
#ifdef VF_PROOF
	static struct rrr_websocket_state st; g_st = &st; uint32_t s = nondet_u32(); g_rand = nondet_u32(); st.last_receive_time = nondet_u64(); st.last_ping_time = nondet_u64(); g_now = nondet_u64(); REQUIRES(g_now > (1ULL << 53) && g_now < (1ULL << 62) && st.last_receive_time <= g_now && st.last_ping_time <= g_now);
	uint64_t lr = st.last_receive_time, lp = st.last_ping_time; int w = st.waiting_for_pong = nondet_bool();
	if (nondet_bool()) ENSURES("timed out exactly when nothing was received for the given time", (rrr_websocket_check_timeout(&st, s) != 0) == (s != 0 && lr != 0 && lr <= g_now - (uint64_t) s * 1000 * 1000));
	else {
		rrr_websocket_enqueue_ping_if_needed(&st, s);
		ENSURES("ping exactly when the interval has passed and none is unanswered", g_enq_n == (s != 0 && lp != 0 && lp <= g_now - (uint64_t) s * 1000 * 1000 && !w));
		if (g_enq_n) ENSURES("ping", g_enq_op == 9 && g_enq_p == NULL && g_enq_len == 0 && st.waiting_for_pong && st.last_ping_time == g_now);
		else ENSURES("no change", st.waiting_for_pong == w && (st.last_ping_time == lp || (lp == 0 && s != 0 && st.last_ping_time == g_now)));
	}
	VF_REACH("timeout end");
#endif
}
#ifdef VF_NATIVE
struct msg { uint8_t op; char data[4096]; uint64_t n; };
static struct msg g_want[64], g_got[64]; static int g_want_n, g_got_n; static char g_in[300000]; static uint64_t g_in_n;
static int got_cb(uint8_t op, const struct rrr_nullsafe_str *s, void *arg) { (void) arg; struct msg *m = &g_got[g_got_n++]; m->op = op; m->n = s->len; memcpy(m->data, s->str ? s->str : "", s->len < 4096 ? s->len : 4096); return 0; }
static uint64_t put_frame(uint8_t fin, uint8_t op, const char *d, uint64_t n, int mask, uint32_t key, int form) {
	uint64_t at = g_in_n; g_in[g_in_n++] = (char) (fin << 7 | op); int f = form > 1 || n > 65535 ? 2 : form == 1 || n > 125 ? 1 : 0;
	g_in[g_in_n++] = (char) (mask << 7 | (f == 2 ? 127 : f == 1 ? 126 : (int) n));
	for (int i = f == 2 ? 7 : f == 1 ? 1 : -1; i >= 0; i--) g_in[g_in_n++] = (char) (n >> (8 * i));
	if (mask) for (int i = 3; i >= 0; i--) g_in[g_in_n++] = (char) (key >> (8 * i));
	for (uint64_t i = 0; i < n; i++) g_in[g_in_n++] = (char) (d[i] ^ (mask ? KEYB(key, i) : 0));
	return g_in_n - at;
}
#endif
/* random frames against an independent receiver */
void b_receive(void) {
#ifdef VF_NATIVE
	struct rrr_websocket_state st; memset(&st, 0, sizeof st); struct rrr_websocket_callback_data cd = { &st, got_cb, NULL };
	static char frag[4096]; uint64_t frag_n = 0; int prog = 0, k = vf_in8(1, VF_BOUND); g_got_n = g_want_n = 0; struct { uint64_t n; char d[128]; } pongs[VF_BOUND]; int pong_n = 0; uint8_t fop = 0;
	for (int i = 0; i < k; i++) {
		static const uint8_t ops[] = { 1, 2, 0, 0, 9, 10, 8, 3, 11, 0 }; uint8_t op = ops[vf_in8(0, 9)], fin = vf_in8(0, 3) != 0; int form = vf_in8(0, 5); uint64_t n = vf_in8(0, 7) ? vf_in8(0, 9) : vf_in8(0, 1) ? vf_in16(120, 130) : vf_in16(250, 300); char d[300];
		for (uint64_t j = 0; j < n; j++) d[j] = j < 10 ? (char) vf_u8() : (char) (j * 7);
		g_in_n = 0; uint64_t total = put_frame(fin, op, d, n, vf_bool(), vf_u32(), form > 2 ? 0 : form), hl = total - n;
		/* header arrives in pieces */
		struct rrr_read_session rs; memset(&rs, 0, sizeof rs);
		for (uint64_t have = 1; have <= hl; have++) { char *x = vf_new(have); memcpy(x, g_in, have); rs.rx_buf_ptr = x; rs.rx_buf_wpos = have; int r = __rrr_websocket_get_target_size(&rs, &cd); ENSURES("header complete", r == (have < hl ? RRR_READ_INCOMPLETE : RRR_READ_OK)); }
		ENSURES("size", rs.target_size == total);
		char *x = vf_new(total); memcpy(x, g_in, total); rs.rx_buf_ptr = x; rs.rx_buf_wpos = total; uint64_t before = st.send_queue.node_count;
		int r = __rrr_websocket_receive_callback_interpret_step(&rs, &cd);
		int bad = op >= 8 ? !(op <= 10 && fin && n <= 125) : op > 2 || (op == 0) != prog;
		if (bad) { ENSURES("refused", r == RRR_READ_SOFT_ERROR); break; }
		if (op == 8) { ENSURES("close", r == RRR_READ_EOF); break; }
		ENSURES("accepted", r == RRR_READ_OK);
		if (op == 9) { pongs[pong_n].n = n; memcpy(pongs[pong_n].d, d, n); pong_n++; }
		ENSURES("reply only to ping", st.send_queue.node_count == (int) (before + (op == 9)));
		if (op < 8) {
			if (op) { fop = op; frag_n = 0; } memcpy(frag + frag_n, d, n); frag_n += n; prog = !fin;
			if (fin) { struct msg *m = &g_want[g_want_n++]; m->op = fop; m->n = frag_n; memcpy(m->data, frag, frag_n); }
		}
	}
	ENSURES("messages", g_got_n == g_want_n);
	for (int i = 0; i < g_got_n; i++) ENSURES("message", g_got[i].op == g_want[i].op && g_got[i].n == g_want[i].n && !memcmp(g_got[i].data, g_want[i].data, g_got[i].n));
	g_out_n = 0; uint64_t at = 0; ENSURES("send", !rrr_websocket_transport_ctx_send_frames(NULL, &st) && st.send_queue.ptr_first == NULL);
	for (int i = 0; i < pong_n; i++) { ENSURES("pong", (uint8_t) g_out[at] == 0x8a && (uint64_t) g_out[at + 1] == pongs[i].n && !memcmp(g_out + at + 2, pongs[i].d, pongs[i].n)); at += 2 + pongs[i].n; }
	ENSURES("nothing else", at == g_out_n);
	rrr_websocket_state_clear_all(&st);
#endif
}
/* frames sent are those enqueued, as a peer reads them */
void b_send(void) {
#ifdef VF_NATIVE
	struct rrr_websocket_state st, rx; memset(&st, 0, sizeof st); memset(&rx, 0, sizeof rx); struct rrr_websocket_callback_data cd = { &rx, got_cb, NULL }; (void) cd;
	int client = vf_bool(), k = vf_in8(1, VF_BOUND); if (client) rrr_websocket_state_set_client_mode(&st);
	uint64_t len[VF_BOUND]; uint8_t op[VF_BOUND], seed[VF_BOUND]; g_out_n = 0;
	for (int i = 0; i < k; i++) {
		len[i] = vf_in8(0, 3) ? vf_in8(0, 9) : vf_bool() ? vf_in16(124, 128) : vf_bool() ? vf_in32(65533, 65538) : vf_in16(200, 600); op[i] = vf_in8(1, 2); seed[i] = vf_u8();
		char *p = len[i] ? malloc(len[i]) : NULL; for (uint64_t j = 0; j < len[i]; j++) p[j] = (char) (seed[i] + j * j);
		ENSURES("enqueue", !rrr_websocket_frame_enqueue(&st, op[i], &p, len[i]) && p == NULL);
	}
	ENSURES("send", !rrr_websocket_transport_ctx_send_frames(NULL, &st) && st.send_queue.ptr_first == NULL && st.send_queue.node_count == 0);
	const uint8_t *b = (uint8_t *) g_out; uint64_t at = 0;
	for (int i = 0; i < k; i++) {
		ENSURES("first byte", b[at] == (0x80 | op[i])); unsigned l = b[at + 1] & 127; ENSURES("mask", b[at + 1] >> 7 == client); at += 2; uint64_t n = l;
		if (l == 126) { n = (uint64_t) b[at] << 8 | b[at + 1]; at += 2; ENSURES("short form", n > 125); } else if (l == 127) { n = 0; for (int j = 0; j < 8; j++) n = n << 8 | b[at++]; ENSURES("short form", n > 65535); }
		uint8_t key[4] = { 0, 0, 0, 0 }; if (client) for (int j = 0; j < 4; j++) key[j] = b[at++];
		ENSURES("length", n == len[i]);
		for (uint64_t j = 0; j < n; j++) ENSURES("payload", (uint8_t) (b[at + j] ^ key[j % 4]) == (uint8_t) (seed[i] + j * j));
		at += n;
	}
	ENSURES("nothing else", at == g_out_n);
	rrr_websocket_state_clear_all(&st);
#endif
}
