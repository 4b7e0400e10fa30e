//@ wip C19
//@ proof p_push unwind=34 split=1 defs=-DVF_CPW_FIXED=0,-DVF_CPW_N=1,-DPUSH_FC=1 funcs=rrr_modbus_client_req_01_read_coils,__rrr_modbus_client_read_req,__rrr_modbus_client_req_push,__rrr_modbus_client_transaction_reserve,__rrr_modbus_req_init native=0 cost=50
//@ proof p_push unwind=34 split=1 defs=-DVF_CPW_FIXED=0,-DVF_CPW_N=1,-DPUSH_FC=2 funcs=rrr_modbus_client_req_02_read_discrete_inputs,__rrr_modbus_client_read_req,__rrr_modbus_client_req_push,__rrr_modbus_client_transaction_reserve,__rrr_modbus_req_init native=0 cost=50
//@ proof p_push unwind=34 split=1 defs=-DVF_CPW_FIXED=0,-DVF_CPW_N=1,-DPUSH_FC=3 funcs=rrr_modbus_client_req_03_read_holding_registers,__rrr_modbus_client_read_req,__rrr_modbus_client_req_push,__rrr_modbus_client_transaction_reserve,__rrr_modbus_req_init native=0 cost=50
//@ proof p_push unwind=34 split=1 defs=-DVF_CPW_FIXED=0,-DVF_CPW_N=1,-DPUSH_FC=4 funcs=rrr_modbus_client_req_04_read_input_registers,__rrr_modbus_client_read_req,__rrr_modbus_client_req_push,__rrr_modbus_client_transaction_reserve,__rrr_modbus_req_init native=0 cost=50
//@ proof p_push unwind=34 split=1 defs=-DVF_CPW_FIXED=0,-DVF_CPW_N=1,-DPUSH_FC=6 funcs=rrr_modbus_client_req_06_write_single_register,__rrr_modbus_client_write_single_reg_req,__rrr_modbus_client_req_push,__rrr_modbus_client_transaction_reserve,__rrr_modbus_req_init native=0 cost=50
//@ proof p_push unwind=34 split=1 defs=-DVF_CPW_FIXED=0,-DVF_CPW_N=1,-DPUSH_FC=16 funcs=rrr_modbus_client_req_16_write_multiple_registers,__rrr_modbus_client_write_multiple_regs_req,__rrr_modbus_client_req_push,__rrr_modbus_client_transaction_reserve,__rrr_modbus_req_init native=0 cost=50
//@ proof p_write unwind=34 split=1 defs=-DVF_CPW_FIXED=0,-DVF_CPW_N=1 funcs=rrr_modbus_client_write native=0 cost=50
//@ proof p_read unwind=34 split=1 funcs=rrr_modbus_client_read,__rrr_modbus_client_receive,__rrr_modbus_client_transaction_find_and_consume,__rrr_modbus_client_transaction_migrate,__rrr_modbus_client_transaction_reset,__rrr_modbus_client_receive_byte_count_and_status,__rrr_modbus_client_receive_starting_address_and_register_value,__rrr_modbus_client_receive_starting_address_and_quantity native=0 cost=50
//@ proof p_new unwind=34 funcs=rrr_modbus_client_new,rrr_modbus_client_callbacks_set
//@ bounded b_session unwind=34 bound=6 maxlen=600 nobmc=1
//@ assume rrr_time_get_64 returns any value above 10^6 (microseconds since the epoch); the user's callbacks do not change the client
#define VF_MEMCPY_WITNESS
#include "vf.h"
#include "allocator.h"
#include "rrr_types.h"
#include "util/rrr_endian.c"
#include "modbus/rrr_modbus.c"

/* environment */
static uint64_t env_time;
uint64_t rrr_time_get_64(void) { return env_time; }

#define N RRR_MODBUS_CLIENT_TRANSACTION_MAX
static unsigned be16(const uint8_t *p) { return ((unsigned) p[0] << 8) | p[1]; }

/* ghost log of the callbacks */
static struct { int called; unsigned kind; uint16_t tid; uint8_t fc, ec, bc; uint16_t a, q; const uint8_t *p; void *priv, *arg; uint8_t byte; int byte_ok; } cb;
static int created, destroyed, destroyed_before_cb; static void *destroyed_p; static int cb_ret, create_ret; static void *create_p, *create_arg;
static unsigned wit; /* arbitrary index into a delivered byte array */
static int arg_obj;
static int common(unsigned kind, uint8_t fc, uint16_t tid, void *priv, void *arg) {
	cb.called++; cb.kind = kind; cb.fc = fc; cb.tid = tid; cb.priv = priv; cb.arg = arg;
	destroyed_before_cb = destroyed;
	return cb_ret;
}
static void bytes(const uint8_t *p, unsigned n) { cb.bc = (uint8_t) n; cb.byte_ok = 0; if (wit < n) { cb.byte = p[wit]; cb.byte_ok = 1; } }
static int cb_error(RRR_MODBUS_ERROR_CALLBACK_ARGS) { cb.ec = error_code; return common(99, function_code, transaction_id, transaction_private_data, arg); }
static int cb_01(RRR_MODBUS_BYTE_COUNT_AND_COILS_CALLBACK_ARGS) { bytes(coil_status, byte_count); return common(1, function_code, transaction_id, transaction_private_data, arg); }
static int cb_02(RRR_MODBUS_BYTE_COUNT_AND_COILS_CALLBACK_ARGS) { bytes(coil_status, byte_count); return common(2, function_code, transaction_id, transaction_private_data, arg); }
static int cb_03(RRR_MODBUS_BYTE_COUNT_AND_REGISTERS_CALLBACK_ARGS) { bytes(register_value, byte_count); return common(3, function_code, transaction_id, transaction_private_data, arg); }
static int cb_04(RRR_MODBUS_BYTE_COUNT_AND_REGISTERS_CALLBACK_ARGS) { bytes(register_value, byte_count); return common(4, function_code, transaction_id, transaction_private_data, arg); }
static int cb_06(RRR_MODBUS_STARTING_ADDRESS_AND_REGISTER_VALUE_CALLBACK_ARGS) { cb.a = starting_address; bytes(register_value, 2); return common(6, function_code, transaction_id, transaction_private_data, arg); }
static int cb_16(RRR_MODBUS_STARTING_ADDRESS_AND_QUANTITY_CALLBACK_ARGS) { cb.a = starting_address; cb.q = quantity; return common(16, function_code, transaction_id, transaction_private_data, arg); }
static int cb_create(void **result, void *private_data_arg, void *arg) { created++; create_arg = private_data_arg; *result = create_p; cb.arg = arg; return create_ret; }
static void cb_destroy(void *p) { destroyed++; destroyed_p = p; }
static const struct rrr_modbus_client_callbacks CBS = { cb_create, cb_destroy, cb_error, cb_01, cb_02, cb_03, cb_04, cb_06, cb_16, &arg_obj };

/* ---- representation invariant of a client ---- */
static unsigned sw16(uint16_t v) { return (unsigned) ((v >> 8) | (v << 8)) & 0xffff; }
static unsigned req_amount(const struct rrr_modbus_req *r) { return sw16(r->write_multiple_registers_req.quantity_of_registers); }
static int req_ok(const struct rrr_modbus_client_transaction *t) {
	unsigned fc = t->req.function_code, am = req_amount(&t->req);
	if (fc >= 1 && fc <= 4) return t->req_size == 5 && am >= 1 && am <= (fc <= 2 ? 2000 : 125);
	if (fc == 6) return t->req_size == 5;
	if (fc == 16) return am >= 1 && am <= 123 && t->req.write_multiple_registers_req.byte_count == 2 * am && t->req_size == 6 + 2 * am;
	return 0;
}
/* The invariant is a statement about every slot i: slot_ok(c, span, i), with span the number of
 * queued slots. It is assumed for the slots an argument needs and asserted for an arbitrary one. */
static int pos_ok(const struct rrr_modbus_client *c, unsigned span) {
	return c->transaction_write_pos < N && c->transaction_transmit_pos < N && span <= N
	    && (c->transaction_transmit_pos + span) % N == c->transaction_write_pos;
}
static int slot_light(const struct rrr_modbus_client *c, unsigned span, unsigned i) {
	const struct rrr_modbus_client_transaction *t = &c->transactions[i];
	unsigned d = (unsigned) (c->transaction_write_pos + N - i - 1) % N + 1; /* pushes ago, 1..N */
	unsigned off = (unsigned) (i + N - c->transaction_transmit_pos) % N;
	int is_q = t->req_size != 0 && t->transmit_time == 0;
	if (t->req_size == 0) { if (t->transmit_time != 0 || t->transaction_private_data != NULL) return 0; }
	else {
		if (t->transaction_private_data == NULL) return 0;
		if (t->transaction_id != (uint16_t) (c->transaction_id_pos - d)) return 0;
	}
	return is_q == (off < span);
}
static int slot_ok(const struct rrr_modbus_client *c, unsigned span, unsigned i) {
	const struct rrr_modbus_client_transaction *t = &c->transactions[i];
	return slot_light(c, span, i) && (t->req_size == 0 || req_ok(t));
}

#ifdef VF_PROOF
static struct rrr_modbus_client C;
static struct rrr_modbus_client_transaction TX; /* slot x before the call */
struct view { uint16_t id, addr, am; rrr_length size; uint64_t time; void *priv; uint8_t fc, bc, c0, c1; };
static struct view V[N]; /* every slot before the call (of the register contents, the first and the last byte) */
static unsigned x, span; static uint16_t o_id, o_w, o_t;
static struct view view(unsigned i) {
	const struct rrr_modbus_client_transaction *a = &C.transactions[i];
	struct view v = { a->transaction_id, a->req.write_multiple_registers_req.starting_address, a->req.write_multiple_registers_req.quantity_of_registers,
		a->req_size, a->transmit_time, a->transaction_private_data, a->req.function_code, a->req.write_multiple_registers_req.byte_count,
		a->req.write_multiple_registers_req.contents[0], a->req.write_multiple_registers_req.contents[245] };
	return v;
}
static int same_view(const struct view *a, const struct view *b) {
	return a->id == b->id && a->addr == b->addr && a->am == b->am && a->size == b->size && a->time == b->time && a->priv == b->priv && a->fc == b->fc && a->bc == b->bc && a->c0 == b->c0 && a->c1 == b->c1;
}
static void any_client(void) {
	__CPROVER_havoc_object(&C);
	C.callbacks = CBS;
#ifdef POS
	C.POSFIELD = POS;
#endif
	span = nondet_u32();
	REQUIRES(pos_ok(&C, span));
	for (unsigned i = 0; i < N; i++) { REQUIRES(slot_ok(&C, span, i)); V[i] = view(i); }
	o_id = C.transaction_id_pos; o_w = C.transaction_write_pos; o_t = C.transaction_transmit_pos;
	env_time = nondet_u64(); REQUIRES(env_time > 1000000);
	created = destroyed = 0; cb.called = 0; wit = nondet_u32();
}
static int all_ok(unsigned nspan) { int r = 1; for (unsigned i = 0; i < N; i++) if (!slot_ok(&C, nspan, i)) r = 0; return r; }
static int others_same(unsigned except) {
	int r = 1;
	for (unsigned i = 0; i < N; i++) { struct view v = view(i); if (i != except && !same_view(&v, &V[i])) r = 0; }
	return r;
}
static void look_at(unsigned k) { x = k; TX = C.transactions[k]; }
#endif

void p_push(void) {
#ifdef VF_PROOF
	any_client();
	look_at(o_w);
	unsigned k = nondet_u32(); vf_cpw[0] = k;
	uint8_t fc = nondet_u8(); uint16_t addr = nondet_u16(), am = nondet_u16();
	uint8_t contents[246];
	__CPROVER_havoc_object(contents);
	create_ret = nondet_u32(); create_p = (void *) nondet_u64(); REQUIRES(create_p != NULL);
	void *parg = (void *) nondet_u64();
	int r;
#if PUSH_FC == 1
	REQUIRES(fc == 1 && am >= 1 && am <= 2000); r = rrr_modbus_client_req_01_read_coils(&C, addr, am, parg);
#elif PUSH_FC == 2
	REQUIRES(fc == 2 && am >= 1 && am <= 2000); r = rrr_modbus_client_req_02_read_discrete_inputs(&C, addr, am, parg);
#elif PUSH_FC == 3
	REQUIRES(fc == 3 && am >= 1 && am <= 125); r = rrr_modbus_client_req_03_read_holding_registers(&C, addr, am, parg);
#elif PUSH_FC == 4
	REQUIRES(fc == 4 && am >= 1 && am <= 125); r = rrr_modbus_client_req_04_read_input_registers(&C, addr, am, parg);
#elif PUSH_FC == 6
	REQUIRES(fc == 6); r = rrr_modbus_client_req_06_write_single_register(&C, addr, contents, parg);
#else
	REQUIRES(fc == 16 && am >= 1 && am <= 123); r = rrr_modbus_client_req_16_write_multiple_registers(&C, addr, am, contents, parg);
#endif
	ENSURES("private data is made once, from the given argument", created == 1 && create_arg == parg && cb.arg == &arg_obj);
	unsigned nspan = span + (r == 0);
	ENSURES("state stays well-formed: positions", pos_ok(&C, nspan));
	ENSURES("state stays well-formed: every slot", all_ok(nspan));
	int is_free = TX.req_size == 0;
	if (create_ret != 0) ENSURES("failure to make private data is returned, nothing is destroyed", r == create_ret && destroyed == 0);
	else ENSURES("accepted exactly when the next slot is free", (r == 0) == (is_free != 0));
	if (r != 0 && create_ret == 0) {
		ENSURES("refused request: private data destroyed once", destroyed == 1 && destroyed_p == create_p);
		int timed_out = TX.transmit_time > 0 && TX.transmit_time < env_time - 1000000;
		ENSURES("refused request: busy, or error after a response timeout", r == (timed_out ? RRR_MODBUS_SOFT_ERROR : RRR_MODBUS_BUSY));
	}
	if (r != 0) {
		ENSURES("refused request changes no slot", others_same(N));
		ENSURES("refused request changes no position", C.transaction_id_pos == o_id && C.transaction_write_pos == o_w && C.transaction_transmit_pos == o_t);
	}
	else {
		struct rrr_modbus_client_transaction *t = &C.transactions[x];
		uint8_t *b = (uint8_t *) &t->req;
		ENSURES("nothing destroyed", destroyed == 0);
		ENSURES("fresh id, private data kept, not sent", t->transaction_id == o_id && t->transaction_private_data == create_p && t->transmit_time == 0);
		ENSURES("request bytes: function and address", b[0] == fc && be16(b + 1) == addr);
		if (fc <= 4) ENSURES("request bytes: amount", t->req_size == 5 && be16(b + 3) == am);
		if (fc == 6) { REQUIRES(k < 2); ENSURES("request bytes: register value", t->req_size == 5 && b[3 + k] == contents[k]); }
		if (fc == 16) { REQUIRES(k < 2 * am); ENSURES("request bytes: registers", t->req_size == 6 + 2 * am && be16(b + 3) == am && b[5] == 2 * am && b[6 + k] == contents[k]); }
		ENSURES("other slots unchanged", others_same(x));
		ENSURES("transmit position unchanged", C.transaction_transmit_pos == o_t);
	}
	VF_REACH("push end");
#endif
}

void p_write(void) {
#ifdef VF_PROOF
	any_client();
	look_at(o_t);
	unsigned k = nondet_u32(); vf_cpw[0] = k;
	static uint8_t out[7 + sizeof(struct rrr_modbus_req)];
	rrr_length n = sizeof(out);
	int r = rrr_modbus_client_write(&C, out, &n);
	unsigned nspan = span - (r == 0);
	ENSURES("state stays well-formed: positions", pos_ok(&C, nspan));
	ENSURES("state stays well-formed: every slot", all_ok(nspan));
	int queued = TX.req_size != 0 && TX.transmit_time == 0;
	ENSURES("sends exactly when something is queued", (r == 0) == (queued != 0) && (r == 0 || r == RRR_MODBUS_DONE));
	ENSURES("sends exactly when something is queued", (r == 0) == (span > 0));
	ENSURES("id and write position unchanged", C.transaction_id_pos == o_id && C.transaction_write_pos == o_w);
	if (r != 0) {
		ENSURES("nothing queued: nothing changes", others_same(N) && C.transaction_transmit_pos == x);
	}
	else {
		ENSURES("frame size", n == 7 + TX.req_size);
		ENSURES("frame header", be16(out) == TX.transaction_id && be16(out + 2) == 0 && be16(out + 4) == TX.req_size + 1 && out[6] == 0xff);
		REQUIRES(k < TX.req_size);
		ENSURES("frame body is the request", out[7 + k] == ((const uint8_t *) &TX.req)[k]);
		ENSURES("handed out once, in order", C.transactions[x].transmit_time == env_time && C.transaction_transmit_pos == (x + 1) % N);
		const struct rrr_modbus_client_transaction *t = &C.transactions[x];
		ENSURES("the sent transaction keeps its id and private data", t->transaction_id == TX.transaction_id && t->req_size == TX.req_size && t->transaction_private_data == TX.transaction_private_data);
		struct view vx = view(x); vx.time = V[x].time;
		ENSURES("the sent transaction is otherwise unchanged", same_view(&vx, &V[x]));
		ENSURES("other transactions unchanged", others_same(x));
	}
	ENSURES("no callback, no private data touched", cb.called == 0 && created == 0 && destroyed == 0);
	VF_REACH("write end");
#endif
}

void p_read(void) {
#ifdef VF_PROOF
	any_client();
	rrr_length n = nondet_u32();
	REQUIRES(n <= 0x7fffffff);
	uint8_t *d = (uint8_t *) vf_newbuf(n);
	cb_ret = nondet_u32();
	vf_cpw[0] = (size_t) wit + 2;
	unsigned len = n >= 7 ? be16(d + 4) : 0;
	int complete = n >= 7 && (len == 0 || n >= 6 + len);
	unsigned pdu = len ? len - 1 : 0;
	unsigned found = 0, slot = 0;
	if (complete && len >= 2 && pdu <= sizeof(struct rrr_modbus_res)) {
		for (unsigned i = 0; i < N; i++) {
			if (C.transactions[i].transmit_time != 0 && C.transactions[i].transaction_id == be16(d)) { found++; slot = i; TX = C.transactions[i]; }
		}
		LEMMA("ids in flight are unique", found <= 1);
		x = slot;
	}
	rrr_length m = n;
	int r = rrr_modbus_client_read(&C, d, &m);
	ENSURES("state stays well-formed: positions", pos_ok(&C, span));
	ENSURES("state stays well-formed: every slot", all_ok(span));
	ENSURES("positions unchanged", C.transaction_id_pos == o_id && C.transaction_write_pos == o_w && C.transaction_transmit_pos == o_t);
	ENSURES("at most one callback, private data outlives it", cb.called <= 1 && (cb.called == 0 || destroyed_before_cb == 0));
	ENSURES("incomplete is reported exactly while bytes are missing", complete ? (r != RRR_MODBUS_INCOMPLETE || cb.called) : r == RRR_MODBUS_INCOMPLETE);
	int deliverable = 0;
	if (found) {
		const uint8_t *q = (const uint8_t *) &TX.req;
		unsigned fc = d[7], am = be16(q + 3);
		if (fc > 0x80) deliverable = (fc - 0x80 == q[0]) && pdu == 2;
		else if (fc == q[0]) {
			if (fc <= 4) deliverable = pdu >= 2 && pdu == 2u + d[8] && d[8] != 0 && d[8] == (fc <= 2 ? (am + 7) / 8 : 2 * am);
			else deliverable = pdu == 5;
		}
		if (deliverable) {
			ENSURES("a valid response is delivered once, to its own transaction", cb.called == 1 && cb.tid == be16(d) && cb.priv == TX.transaction_private_data && cb.arg == &arg_obj);
			ENSURES("result is the callback's", r == cb_ret);
			ENSURES("delivered for the right function", fc > 0x80 ? cb.kind == 99 && cb.fc == fc - 0x80 && cb.ec == d[8] : cb.kind == fc && cb.fc == fc);
			if (fc <= 4) ENSURES("delivered bytes are the received ones", cb.bc == d[8] && (wit >= cb.bc || (cb.byte_ok && cb.byte == d[9 + wit])));
			if (fc == 6) ENSURES("delivered register", cb.a == be16(d + 8) && (wit >= 2 || cb.byte == d[10 + wit]));
			if (fc == 16) ENSURES("delivered address and quantity", cb.a == be16(d + 8) && cb.q == be16(d + 10));
		}
		ENSURES("the transaction is consumed, its private data destroyed once", C.transactions[slot].req_size == 0 && destroyed == 1 && destroyed_p == TX.transaction_private_data);
		ENSURES("other transactions unchanged", others_same(slot));
	}
	else {
		ENSURES("no transaction: nothing changes", others_same(N) && destroyed == 0);
		ENSURES("no transaction: soft error once complete", !complete || r == RRR_MODBUS_SOFT_ERROR);
	}
	if (!deliverable) {
		ENSURES("an invalid response is never delivered", cb.called == 0);
		ENSURES("an invalid response is an error", !complete || r == RRR_MODBUS_SOFT_ERROR);
	}
	ENSURES("exactly the frame is consumed", r != 0 || m == 6 + len);
	VF_REACH("read end");
#endif
}

void p_new(void) {
	struct rrr_modbus_client *c = NULL;
	int r = rrr_modbus_client_new(&c);
	if (r == 0) {
		rrr_modbus_client_callbacks_set(c, &CBS);
		unsigned i = vf_in8(0, N - 1);
		ENSURES("a new client is well-formed and empty", c != NULL && pos_ok(c, 0) && slot_ok(c, 0, i) && c->transaction_id_pos == 0);
		ENSURES("callbacks are taken over", c->callbacks.cb_res_error == cb_error && c->callbacks.cb_res_01_read_coils == cb_01 && c->callbacks.cb_res_16_write_multiple_registers == cb_16 && c->callbacks.arg == &arg_obj);
		ENSURES("no transactions", c->transactions[i].req_size == 0);
		VF_REACH("new end");
		rrr_modbus_client_destroy(c);
	}
	else ENSURES("failure gives no client", c == NULL);
}

/* bounded session through the public interface, with an independent model */
#ifndef VF_PROOF
struct m_tr { int used; uint16_t id; uint8_t fc; uint16_t addr, am; uint8_t contents[246]; int sent; uint64_t t; char *priv; };
#endif
void b_session(void) {
#ifndef VF_PROOF
	static char privs[64];
	static struct m_tr ring[N];
	memset(ring, 0, sizeof(ring));
	unsigned wpos = 0, tpos = 0; uint16_t idpos = 0;
	struct rrr_modbus_client *c = NULL;
	if (rrr_modbus_client_new(&c) != 0) return;
	rrr_modbus_client_callbacks_set(c, &CBS);
	env_time = 2000000; create_ret = 0; 
	unsigned steps = vf_in8(0, 70), npriv = 0;
	for (unsigned s = 0; s < steps; s++) {
		uint8_t op = vf_in8(0, 9);
		cb.called = created = destroyed = 0;
		if (op <= 4) {
			static const uint8_t fcs[] = {1,2,3,4,6,16};
			uint8_t fc = fcs[vf_in8(0,5)]; uint16_t addr = vf_u16();
			uint16_t am = (uint16_t) (fc == 6 ? 1 : vf_in16(1, fc <= 2 ? 2000 : fc <= 4 ? 125 : 123));
			uint8_t cont[246]; for (unsigned i = 0; i < 246; i++) cont[i] = (uint8_t) (i * 7 + addr);
			create_p = &privs[npriv++ % 64];
			int r = fc == 1 ? rrr_modbus_client_req_01_read_coils(c, addr, am, privs) : fc == 2 ? rrr_modbus_client_req_02_read_discrete_inputs(c, addr, am, privs)
			 : fc == 3 ? rrr_modbus_client_req_03_read_holding_registers(c, addr, am, privs) : fc == 4 ? rrr_modbus_client_req_04_read_input_registers(c, addr, am, privs)
			 : fc == 6 ? rrr_modbus_client_req_06_write_single_register(c, addr, cont, privs) : rrr_modbus_client_req_16_write_multiple_registers(c, addr, am, cont, privs);
			ENSURES("accepted exactly when the next slot is free", (r == 0) == !ring[wpos].used);
			ENSURES("private data made once, destroyed when refused", created == 1 && destroyed == (r != 0));
			if (r) ENSURES("busy or timeout", r == (ring[wpos].sent && env_time - ring[wpos].t > 1000000 ? RRR_MODBUS_SOFT_ERROR : RRR_MODBUS_BUSY));
			if (r == 0) {
				struct m_tr *t = &ring[wpos]; wpos = (wpos + 1) % N;
				t->used = 1; t->sent = 0; t->id = idpos++; t->fc = fc; t->addr = addr; t->am = am; t->priv = create_p; memcpy(t->contents, cont, 246);
			}
		}
		else if (op <= 6) {
			rrr_length n = vf_in16(7 + sizeof(struct rrr_modbus_req), 400);
			uint8_t *o = malloc(n); rrr_length cap = n;
			int r = rrr_modbus_client_write(c, o, &n);
			struct m_tr *t = &ring[tpos];
			ENSURES("sends exactly when something is queued", (r == 0) == (t->used && !t->sent) && (r == 0 || r == RRR_MODBUS_DONE));
			if (r == 0) {
				unsigned body = t->fc == 16 ? 6 + 2 * t->am : 5;
				ENSURES("frame size", n == 7 + body && n <= cap);
				ENSURES("frame header", be16(o) == t->id && be16(o + 2) == 0 && be16(o + 4) == body + 1 && o[6] == 0xff && o[7] == t->fc && be16(o + 8) == t->addr);
				if (t->fc <= 4) ENSURES("amount", be16(o + 10) == t->am);
				if (t->fc == 6) ENSURES("register", memcmp(o + 10, t->contents, 2) == 0);
				if (t->fc == 16) ENSURES("registers", be16(o + 10) == t->am && o[12] == 2 * t->am && memcmp(o + 13, t->contents, 2 * t->am) == 0);
				t->sent = 1; t->t = env_time; tpos = (tpos + 1) % N;
			}
			free(o);
		}
		else if (op == 7) env_time += vf_in32(0, 2000000);
		else {
			uint8_t d[300]; memset(d, 0, sizeof(d));
			unsigned which = vf_in8(0, N - 1); struct m_tr *g = &ring[which];
			unsigned tid = vf_bool() ? g->id : (unsigned) vf_u16();
			uint8_t fc = vf_in8(0, 3) ? g->fc : vf_u8(); if (vf_in8(0, 4) == 0) fc |= 0x80;
			unsigned bc = (uint8_t) (g->fc <= 2 ? (g->am + 7) / 8 : 2 * g->am); if (vf_in8(0, 4) == 0) bc = vf_u8();
			unsigned pdu = fc & 0x80 ? 2 : fc <= 4 ? 2 + bc : 5; if (vf_in8(0, 4) == 0) pdu = vf_in16(0, 290);
			unsigned len = pdu + 1; if (vf_in8(0, 6) == 0) len = vf_in8(0, 255);
			d[0] = tid >> 8; d[1] = tid; d[4] = len >> 8; d[5] = len; d[6] = vf_u8(); d[7] = fc; d[8] = bc;
			for (unsigned i = 9; i < 300; i++) d[i] = (uint8_t) (i * 13 + s);
			if (fc & 0x80 || fc > 4) { d[8] = vf_u8(); }
			unsigned n = 6 + len; if (vf_in8(0, 3) == 0) n = vf_in16(0, 300); if (n > 300) n = 300;
			uint8_t *e = malloc(n ? n : 1); memcpy(e, d, n);
			wit = vf_u8(); cb_ret = vf_in8(0, 1) ? 0 : RRR_MODBUS_HARD_ERROR;
			rrr_length m = n;
			int r = rrr_modbus_client_read(c, e, &m);
			int complete = n >= 7 && (len == 0 || n >= 6 + len);
			ENSURES("incomplete exactly while bytes are missing", (r == RRR_MODBUS_INCOMPLETE) == !complete);
			if (complete) {
				pdu = len ? len - 1 : 0;
				struct m_tr *t = NULL;
				if (len >= 2 && pdu <= sizeof(struct rrr_modbus_res)) for (unsigned i = 0; i < N; i++) if (ring[i].used && ring[i].sent && ring[i].id == (uint16_t) tid) t = &ring[i];
				int deliv = 0;
				if (t) {
					if (fc > 0x80) deliv = fc - 0x80 == t->fc && pdu == 2;
					else if (fc == t->fc) deliv = fc <= 4 ? pdu == 2u + d[8] && d[8] && d[8] == (fc <= 2 ? (t->am + 7) / 8 : 2 * t->am) : pdu == 5;
				}
				ENSURES("delivered exactly when valid", cb.called == deliv);
				ENSURES("result", r == (deliv ? cb_ret : RRR_MODBUS_SOFT_ERROR));
				ENSURES("private data destroyed once when consumed", destroyed == (t != NULL) && (!t || destroyed_p == t->priv));
				if (deliv) {
					ENSURES("own transaction", cb.tid == (uint16_t) tid && cb.priv == t->priv && cb.arg == &arg_obj);
					ENSURES("own function", fc > 0x80 ? cb.kind == 99 && cb.fc == fc - 0x80 && cb.ec == d[8] : cb.kind == fc && cb.fc == fc);
					if (fc <= 4) ENSURES("data", cb.bc == d[8] && (wit >= cb.bc || cb.byte == d[9 + wit]));
					if (fc == 6) ENSURES("register", cb.a == be16(d + 8) && (wit >= 2 || cb.byte == d[10 + wit]));
					if (fc == 16) ENSURES("address and quantity", cb.a == be16(d + 8) && cb.q == be16(d + 10));
				}
				if (t) memset(t, 0, sizeof(*t));
				ENSURES("exactly the frame is consumed", r != 0 || m == 6 + len);
			}
			free(e);
		}
	}
	unsigned left = 0; for (unsigned i = 0; i < N; i++) left += ring[i].used;
	destroyed = 0;
	rrr_modbus_client_destroy(c);
	ENSURES("all private data is destroyed with the client", destroyed == (int) left);
#endif
}
