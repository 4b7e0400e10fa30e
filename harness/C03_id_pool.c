//@ property C03
//@ proof p_get_id unwind=3 timeout=300 cost=60 funcs=rrr_mqtt_id_pool_get_id
//@ proof p_realloc unwind=5 funcs=__rrr_mqtt_id_pool_realloc native=0
//@ proof p_get_id_32 unwind=34 funcs=__rrr_mqtt_id_pool_get_id_32
//@ proof p_release unwind=2 funcs=rrr_mqtt_id_pool_release_id
//@ proof p_init unwind=2 funcs=rrr_mqtt_id_pool_init,rrr_mqtt_id_pool_clear,rrr_mqtt_id_pool_destroy
//@ bounded b_history unwind=10 bound=6 nobmc=1 maxlen=600
//@ assume a packet id is only released while it is in use (the code aborts otherwise)
//@ assume the pool array holds as many words as allocated_majors says, a multiple of the allocation step (established by rrr_mqtt_id_pool_init, preserved by every operation: proved)
#define VF_MEMCPY_WITNESS
#include "vf.h"
#include "rrr_types.h"
#include "mqtt/mqtt_id_pool.h"
/* the abstract state: the set of ids in use */
static int in_use(const struct rrr_mqtt_id_pool *p, uint16_t id) {
	uint32_t bit = (uint32_t) id - 1;
	return id != 0 && bit / 32 < p->allocated_majors && ((p->pool[bit / 32] >> (bit % 32)) & 1);
}
static int wf(const struct rrr_mqtt_id_pool *p) {
	return p->allocated_majors <= RRR_MQTT_ID_POOL_SIZE_IN_32 && p->allocated_majors % RRR_MQTT_ID_POOL_STEP_SIZE_IN_32 == 0;
}
#ifdef VF_PROOF
static uint32_t g_w; /* word of the arbitrary id */
static uint16_t __rrr_mqtt_id_pool_get_id_32__stub(uint32_t *source) {
	if (*source == 0xffffffff) return 0;
	unsigned i = nondet_u32();
	REQUIRES(i < 32 && !((*source >> i) & 1) && (*source & ((UINT32_C(1) << i) - 1)) == (UINT32_C(1) << i) - 1);
	*source |= UINT32_C(1) << i;
	return (uint16_t) (i + 1);
}
/* contract of growing the pool (proved: p_realloc); ghost g_free: a word known to be zero afterwards */
static int g_nomem; static uint32_t g_free; static uint32_t *g_pool;
struct rrr_mqtt_id_pool;
static int __rrr_mqtt_id_pool_realloc__stub(struct rrr_mqtt_id_pool *pool, rrr_length steps) {
	CALLEE_PRE("realloc: well-formed pool, one step", wf(pool) && steps == RRR_MQTT_ID_POOL_STEP_SIZE_IN_32);
	if (pool->allocated_majors == RRR_MQTT_ID_POOL_SIZE_IN_32) return 1;
	if (nondet_bool()) { g_nomem = 1; return 1; }
	rrr_length o = pool->allocated_majors, n = o + steps;
	uint32_t *q = vf_malloc(n * sizeof(uint32_t)); REQUIRES(q != NULL);
	if (g_w < o) REQUIRES(q[g_w] == pool->pool[g_w]);
	if (g_w >= o && g_w < n) REQUIRES(q[g_w] == 0);
	REQUIRES(q[o] == 0);
	g_free = o; pool->pool = q; pool->allocated_majors = n;
	return 0;
}
#define GROW __rrr_mqtt_id_pool_realloc__real
#define GET_ID_32 __rrr_mqtt_id_pool_get_id_32__real
#else
/* contract of growing the pool (proved: p_realloc); ghost g_free: a word known to be zero afterwards */
static int g_nomem; static uint32_t g_free; static uint32_t *g_pool;
struct rrr_mqtt_id_pool;
static int __rrr_mqtt_id_pool_realloc__stub(struct rrr_mqtt_id_pool *pool, rrr_length steps) {
	CALLEE_PRE("realloc: well-formed pool, one step", wf(pool) && steps == RRR_MQTT_ID_POOL_STEP_SIZE_IN_32);
	if (pool->allocated_majors == RRR_MQTT_ID_POOL_SIZE_IN_32) return 1;
	if (nondet_bool()) { g_nomem = 1; return 1; }
	rrr_length o = pool->allocated_majors, n = o + steps;
	uint32_t *q = vf_malloc(n * sizeof(uint32_t)); REQUIRES(q != NULL);
	if (g_w < o) REQUIRES(q[g_w] == pool->pool[g_w]);
	if (g_w >= o && g_w < n) REQUIRES(q[g_w] == 0);
	REQUIRES(q[o] == 0);
	g_free = o; pool->pool = q; pool->allocated_majors = n;
	return 0;
}
#define GROW __rrr_mqtt_id_pool_realloc__real
#define GET_ID_32 __rrr_mqtt_id_pool_get_id_32
#endif
VF_OPAQUE(__rrr_mqtt_id_pool_get_id_32)
VF_OPAQUE(__rrr_mqtt_id_pool_realloc)
#include "mqtt/mqtt_id_pool.c"
#ifdef VF_PROOF
static void pool_in(struct rrr_mqtt_id_pool *p) {
	p->allocated_majors = nondet_u32();
	REQUIRES(wf(p));
	p->pool = NULL;
	if (p->allocated_majors > 0) p->pool = vf_new(p->allocated_majors * sizeof(uint32_t));
	p->last_allocated_id = nondet_u16();
	vf_reg(p, sizeof(*p));
}
#endif
/* new words of a grown pool are zero */
VF_LOOP(__rrr_mqtt_id_pool_realloc, 0,
	mem(new_pool + pool->allocated_majors, (size_t) (new_majors - pool->allocated_majors) * sizeof(*new_pool));
	inv(zeroed, i >= pool->allocated_majors && i <= new_majors && (!(g_w >= pool->allocated_majors && g_w < i) || new_pool[g_w] == 0));
	dec(new_majors - i))
/* every word before the position is full */
VF_LOOP(rrr_mqtt_id_pool_get_id, 0,
	inv(full, i <= g_free && i <= pool->allocated_majors && (!(g_w < i) || pool->pool[g_w] == 0xffffffff));
	inv(fresh, ret == 0); unchanged(ret);
	dec(pool->allocated_majors - i))

void p_get_id(void) {
#ifdef VF_PROOF
	struct rrr_mqtt_id_pool p; pool_in(&p);
	uint16_t w = nondet_u16(); REQUIRES(w != 0);
	g_w = ((uint32_t) w - 1) / 32;
	g_free = UINT32_MAX; g_nomem = 0;
	int used = in_use(&p, w); rrr_length majors = p.allocated_majors;
	uint16_t id = rrr_mqtt_id_pool_get_id(&p);
	ENSURES("the state stays well-formed and never shrinks", wf(&p) && p.allocated_majors >= majors);
	ENSURES("an id that was in use is not handed out", id == 0 || id != w || !used);
	ENSURES("the id handed out is now in use", id != w || in_use(&p, w));
	ENSURES("no other id changes", id == w || in_use(&p, w) == used);
	ENSURES("0 is only returned when all ids are in use or memory has run out", id != 0 || used || g_nomem);
	ENSURES("as long as allocated words have a free id one is handed out", id != 0 || used || g_w >= p.allocated_majors);
	VF_REACH("get_id end");
#endif
}
void p_realloc(void) {
#ifdef VF_PROOF
	struct rrr_mqtt_id_pool p; pool_in(&p);
	rrr_length o = p.allocated_majors; g_w = nondet_u32(); REQUIRES(g_w < RRR_MQTT_ID_POOL_SIZE_IN_32);
	for (unsigned k = 0; k < 4; k++) vf_cpw[k] = (size_t) g_w * 4 + k;
	uint32_t v = g_w < o ? p.pool[g_w] : 0;
	int r = GROW(&p, RRR_MQTT_ID_POOL_STEP_SIZE_IN_32);
	ENSURES("grows by one step unless at the maximum", r != 0 ? p.allocated_majors == o : p.allocated_majors == o + RRR_MQTT_ID_POOL_STEP_SIZE_IN_32 && wf(&p));
	ENSURES("refused at the maximum", o != RRR_MQTT_ID_POOL_SIZE_IN_32 || r != 0);
	ENSURES("words in use are kept and new words are zero", g_w >= p.allocated_majors || p.pool[g_w] == v);
	VF_REACH("realloc end");
#endif
}
void p_get_id_32(void) {
	uint32_t v = vf_u32(), o = v;
	uint16_t r = GET_ID_32(&v);
	ENSURES("a full word yields 0 and is kept", (r == 0) == (o == 0xffffffff) && (r != 0 || v == o));
	ENSURES("exactly one free bit is taken", r == 0 || (r <= 32 && !((o >> (r - 1)) & 1) && v == (o | UINT32_C(1) << (r - 1))));
	ENSURES("it is the lowest free bit", r == 0 || (o & ((UINT32_C(1) << (r - 1)) - 1)) == (UINT32_C(1) << (r - 1)) - 1);
	VF_REACH("get_id_32 end");
}
void p_release(void) {
#ifdef VF_PROOF
	struct rrr_mqtt_id_pool p; pool_in(&p);
	uint16_t id = nondet_u16(), w = nondet_u16(); REQUIRES(w != 0 && in_use(&p, id));
	int used = in_use(&p, w);
	rrr_mqtt_id_pool_release_id(&p, id);
	ENSURES("the released id is available", !in_use(&p, id));
	ENSURES("no other id changes", id == w || in_use(&p, w) == used);
	ENSURES("the state stays well-formed", wf(&p));
	VF_REACH("release end");
#endif
}
void p_init(void) {
#ifdef VF_PROOF
	struct rrr_mqtt_id_pool p; uint16_t w = nondet_u16();
	int r = rrr_mqtt_id_pool_init(&p);
	ENSURES("a new pool has no id in use", r == 0 && wf(&p) && !in_use(&p, w));
	pool_in(&p);
	int kind = nondet_bool();
	if (kind) rrr_mqtt_id_pool_clear(&p); else rrr_mqtt_id_pool_destroy(&p);
	ENSURES("clearing releases every id", !kind || (wf(&p) && !in_use(&p, w)));
	ENSURES("the array is released", p.pool == NULL);
	VF_REACH("init end");
#endif
}
void b_history(void) {
#ifdef VF_NATIVE
	static uint8_t ref[65536];
	struct rrr_mqtt_id_pool p;
	memset(ref, 0, sizeof(ref));
	ENSURES("init", rrr_mqtt_id_pool_init(&p) == 0);
	/* start from a nearly full pool or an empty one */
	uint32_t fill = vf_in8(0, 3) * 21845u, n_used = 0;
	for (uint32_t i = 0; i < fill; i++) {
		uint16_t id = rrr_mqtt_id_pool_get_id(&p);
		ENSURES("ids of a filling pool are fresh", id != 0 && !ref[id]);
		ref[id] = 1; n_used++;
	}
	for (unsigned k = 0; k < 120; k++) {
		uint8_t op = vf_u8(); uint16_t w = vf_u16();
		if (op == 0) break;
		if (op & 1) {
			uint16_t id = rrr_mqtt_id_pool_get_id(&p);
			if (id == 0) ENSURES("0 only when all ids are in use", n_used == 65535);
			else {
				ENSURES("an id that was in use is not handed out", !ref[id]);
				ref[id] = 1; n_used++;
			}
		}
		else if (w != 0 && ref[w]) {
			rrr_mqtt_id_pool_release_id(&p, w); ref[w] = 0; n_used--;
		}
		for (uint32_t i = 1; i < 65536; i += 1 + (k % 3) * 100) ENSURES("the pool is exactly the set of ids handed out and not released", in_use(&p, (uint16_t) i) == ref[i]);
	}
	rrr_mqtt_id_pool_destroy(&p);
#endif
}
