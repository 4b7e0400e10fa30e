//@ property C09
//@ proof p_expand unwind=9 funcs=__rrr_type_expand_be,__rrr_type_expand_le
//@ proof p_import_int unwind=2 timeout=300 cost=60 native=0 unwindset=rrr_type_get_from_id.0:17 funcs=__rrr_type_import_int,__rrr_type_get_total_size
//@ proof p_import_endian unwind=9 native=0 funcs=__rrr_type_import_be,__rrr_type_import_le,__rrr_type_import_host
//@ proof p_unpack unwind=2 native=0 unwindset=rrr_type_get_from_id.0:17 funcs=__rrr_type_64_unpack,__rrr_type_be_unpack,__rrr_type_fixp_unpack
//@ proof p_pack unwind=2 native=0 funcs=__rrr_type_64_export_or_pack,__rrr_type_host_export,__rrr_type_host_pack,__rrr_type_fixp_pack
//@ proof p_import_blob unwind=1 native=0 funcs=__rrr_type_import_blob defs=-DSIZE_STUB
//@ proof p_total_size unwind=1 solver=z3 native=0 funcs=__rrr_type_get_total_size
//@ proof p_blob_to_64 unwind=9 funcs=__rrr_type_blob_to_64
//@ bounded b_import unwind=18 nobmc=1 bound=10 fbound=60
//@ bounded b_unpack unwind=18 nobmc=1 bound=3 fbound=8
//@ assume on entry to an import the value carries no data, as rrr_type_value_clone provides it (the code aborts otherwise), and the import length is 1..8 as the type definition enforces before the call
#define VF_MEMCPY_WITNESS
#include "vf.h"
#include "rrr_types.h"
#include "type.h"

/* specification: mathematical value of n bytes */
static uint64_t spec_value(const unsigned char *b, unsigned n, int be, int sgn) {
	uint64_t v = 0;
	unsigned char top = be ? b[0] : b[n - 1];
	if (sgn && (top & 0x80)) v = UINT64_MAX;
	for (unsigned i = 0; i < 8; i++) if (i < n) v = (v << 8) | b[be ? i : n - 1 - i];
	return v;
}
#ifdef VF_PROOF
static const char *g_src; static uint64_t g_off, g_k, g_w, g_val; static uint32_t g_len; static int g_flags;
#define OFF_INV(n) (g_k == (n) && g_off == (n) * (uint64_t) g_len)
static uint64_t my_expander(rrr_length n, const char *src, rrr_type_flags flags) {
	CALLEE_PRE("expander: length and flags of the field", n == g_len && flags == g_flags);
	CALLEE_PRE("expander: next element, in order", VF_SAME(src, g_src) && VF_OFF(src) == g_off);
	CALLEE_PRE("expander: the bytes of the element are there", VF_R_OK(src, n));
	uint64_t v = nondet_u64();
	if (g_k == g_w) g_val = v;
	g_k++; g_off += n;
	return v;
}
static int g_calls, g_be; static uint32_t g_args_count, g_args_size; static const void *g_args[4];
static uint64_t __rrr_type_expand_be__stub(rrr_length n, const char *src, rrr_type_flags flags) { (void) n; (void) src; (void) flags; return 1; }
static uint64_t __rrr_type_expand_le__stub(rrr_length n, const char *src, rrr_type_flags flags) { (void) n; (void) src; (void) flags; return 0; }
static int __rrr_type_import_int__stub(struct rrr_type_value *node, rrr_length *parsed_bytes, const char *start, const char *end, uint64_t (*expander)(rrr_length, const char *, rrr_type_flags)) {
	CALLEE_PRE("arguments passed on", node == g_args[0] && parsed_bytes == g_args[1] && start == g_args[2] && end == g_args[3]);
	g_be = (int) expander(1, NULL, 0); g_calls++;
	return 77;
}
/* callee contract, proved of the real function by p_total_size: the product, or an error when it does not fit */
static uint64_t g_total;
static int __rrr_type_get_total_size__real(rrr_length *result, rrr_length element_count, rrr_length element_size);
static int __rrr_type_get_total_size__stub(rrr_length *result, rrr_length element_count, rrr_length element_size) {
#ifndef SIZE_STUB
	return __rrr_type_get_total_size__real(result, element_count, element_size);
#endif
	CALLEE_PRE("the field's own count and size", element_count == g_args_count && element_size == g_args_size);
	if (g_total > UINT32_MAX) return RRR_TYPE_PARSE_SOFT_ERR;
	*result = (rrr_length) g_total;
	return RRR_TYPE_PARSE_OK;
}
#define EXPAND_BE __rrr_type_expand_be__real
#define EXPAND_LE __rrr_type_expand_le__real
#define IMPORT_INT __rrr_type_import_int__real
#define TOTAL_SIZE __rrr_type_get_total_size__real
#else
#define EXPAND_BE __rrr_type_expand_be
#define EXPAND_LE __rrr_type_expand_le
#define IMPORT_INT __rrr_type_import_int
#endif
VF_OPAQUE(__rrr_type_expand_be)
VF_OPAQUE(__rrr_type_expand_le)
VF_OPAQUE(__rrr_type_import_int)
VF_OPAQUE(__rrr_type_get_total_size)
VF_PTRCMP(__rrr_type_import)
#include "util/rrr_endian.c"
#include "type.c"

VF_LOOP(__rrr_type_import_int, 0,
	ptr(target_wpos, node->data); ptr(data_rpos, start); mem(node->data, node->total_stored_length);
	var(g_off); var(g_k); var(g_val); unchanged(total_size); unchanged(total_stored_length);
	inv(count, array_size <= node->element_count);
	inv(read_pos, VF_SAME(data_rpos, start) && VF_OFF(data_rpos) == g_off && OFF_INV((uint64_t) (node->element_count - array_size)));
	inv(write_pos, VF_SAME(target_wpos, node->data) && VF_OFF(target_wpos) == 8 * (uint64_t) (node->element_count - array_size));
	inv(witness, !(g_w < g_k) || *(uint64_t *) (node->data + 8 * g_w) == g_val);
	dec(array_size))

VF_LOOP(__rrr_type_64_unpack, 0,
	ptr(pos, node->data); mem(node->data, node->total_stored_length);
	inv(position, i <= array_size && VF_SAME(pos, node->data) && VF_OFF(pos) == 8 * (uint64_t) i);
	inv(witness, g_w >= array_size || *(uint64_t *) (node->data + 8 * g_w) == (g_w < i ? be64toh(g_val) : g_val));
	dec(array_size - i))

VF_LOOP(__rrr_type_64_export_or_pack, 0,
	mem(target, node->total_stored_length);
	inv(position, i <= array_size && pos == 8 * i);
	inv(witness, !(g_w < i) || *(uint64_t *) (target + 8 * g_w) == htobe64(g_val));
	dec(array_size - i))

void p_expand(void) {
	uint8_t n = vf_in8(1, 8), flags = vf_u8();
	char *b = vf_newbuf(n);
	int be = vf_bool();
	uint64_t v = be ? EXPAND_BE(n, b, flags) : EXPAND_LE(n, b, flags);
	ENSURES("the result is the mathematical value of the bytes", v == spec_value((unsigned char *) b, n, be, flags & 1));
	VF_REACH("expand end");
}
void p_import_int(void) {
#ifdef VF_PROOF
	struct rrr_type_value v; memset(&v, 0, sizeof(v));
	vf_reg(&v, sizeof(v));
	v.element_count = nondet_u32(); v.import_length = g_len = vf_in32(1, 8); v.flags = g_flags = nondet_u8();
	uint64_t n = VF_LEN64(0, VF_BOUND);
	char *b = vf_newbuf(n);
	g_src = b; g_off = 0; g_k = 0; g_w = nondet_u64(); REQUIRES(g_w < UINT32_MAX);
	rrr_length parsed = nondet_u32();
	uint64_t total = (uint64_t) v.element_count * g_len;
	int r = IMPORT_INT(&v, &parsed, b, b + n, my_expander);
	if (total <= UINT32_MAX && (uint64_t) v.element_count * 8 <= UINT32_MAX)
		ENSURES("incomplete exactly as long as bytes are missing", (r == RRR_TYPE_PARSE_INCOMPLETE) == (total > n));
	if (r == RRR_TYPE_PARSE_OK) {
		ENSURES("exactly the bytes of all elements are consumed", parsed == total && total <= n && g_k == v.element_count && g_off == total);
		ENSURES("eight bytes are stored per element", v.total_stored_length == (uint64_t) v.element_count * 8);
		ENSURES("the value becomes a host integer value", v.definition == &rrr_type_definition_h && v.flags == g_flags);
		ENSURES("each element is the value of its bytes, in order", g_w >= v.element_count || *(uint64_t *) (v.data + 8 * g_w) == g_val);
	}
	VF_REACH("import_int end");
#endif
}
void p_import_endian(void) {
#ifdef VF_PROOF
	struct rrr_type_value v; rrr_length p; char b[2]; g_calls = 0;
	g_args[0] = &v; g_args[1] = &p; g_args[2] = b; g_args[3] = b + 1;
	int k = nondet_u32(); REQUIRES(k >= 0 && k < 3);
	int r = k == 0 ? __rrr_type_import_le(&v, &p, b, b + 1) : k == 1 ? __rrr_type_import_be(&v, &p, b, b + 1) : __rrr_type_import_host(&v, &p, b, b + 1);
	ENSURES("imported once in the byte order of its type", r == 77 && g_calls == 1 && g_be == (k == 1));
	ENSURES("the type table names these importers", rrr_type_definition_be.do_import == __rrr_type_import_be && rrr_type_definition_le.do_import == __rrr_type_import_le
		&& rrr_type_definition_h.do_import == __rrr_type_import_host && rrr_type_definition_be.unpack == __rrr_type_be_unpack && rrr_type_definition_h.pack == __rrr_type_host_pack
		&& rrr_type_definition_be.type == RRR_TYPE_BE && rrr_type_definition_fixp.unpack == __rrr_type_fixp_unpack && rrr_type_definition_fixp.pack == __rrr_type_fixp_pack);
	VF_REACH("import endian end");
#endif
}
#ifdef VF_PROOF
static void packed_in(struct rrr_type_value *v) {
	memset(v, 0, sizeof(*v));
	vf_reg(v, sizeof(*v));
	v->total_stored_length = nondet_u32(); v->element_count = nondet_u32(); v->flags = nondet_u8();
	v->data = v->total_stored_length > 0 ? vf_new(v->total_stored_length) : NULL;
	g_w = nondet_u64(); REQUIRES(g_w < UINT32_MAX);
	g_val = 8 * g_w + 8 <= v->total_stored_length ? *(uint64_t *) (v->data + 8 * g_w) : 0;
}
#endif
void p_unpack(void) {
#ifdef VF_PROOF
	struct rrr_type_value v; packed_in(&v);
	int fixp = nondet_bool(); rrr_length n = v.total_stored_length;
	int r = fixp ? __rrr_type_fixp_unpack(&v) : __rrr_type_be_unpack(&v);
	ENSURES("accepted exactly when the size is that of the elements", (r == 0) == (n > 0 && n == 8 * (uint64_t) v.element_count));
	ENSURES("the value gets its host type and keeps its size", r != 0 || (v.definition == (fixp ? &rrr_type_definition_fixp : &rrr_type_definition_h) && v.total_stored_length == n));
	ENSURES("each element is the big endian value of its bytes", r != 0 || 8 * g_w + 8 > n || *(uint64_t *) (v.data + 8 * g_w) == be64toh(g_val));
	VF_REACH("unpack end");
#endif
}
void p_pack(void) {
#ifdef VF_PROOF
	struct rrr_type_value v; packed_in(&v);
	rrr_length n = v.total_stored_length, written = 0; uint8_t id = 0;
	char *target = vf_new(n ? n : 1);
	int k = nondet_u32(); REQUIRES(k >= 0 && k < 3);
	int r = k == 0 ? __rrr_type_host_export(target, &written, &v) : k == 1 ? __rrr_type_host_pack(target, &written, &id, &v) : __rrr_type_fixp_pack(target, &written, &id, &v);
	ENSURES("refused exactly when not whole elements", (r == 0) == (n % 8 == 0));
	ENSURES("every byte of every element is written", r != 0 || written == n);
	ENSURES("the packed type is the big endian type", r != 0 || k == 0 || id == (k == 1 ? RRR_TYPE_BE : RRR_TYPE_FIXP));
	ENSURES("each element is written in big endian", r != 0 || 8 * g_w + 8 > n || *(uint64_t *) (target + 8 * g_w) == htobe64(g_val));
	LEMMA("packing and unpacking gives back the value", be64toh(htobe64(g_val)) == g_val);
	VF_REACH("pack end");
#endif
}
void p_total_size(void) {
#ifdef VF_PROOF
	rrr_length a = nondet_u32(), b = nondet_u32(), r = nondet_u32();
	int ret = TOTAL_SIZE(&r, a, b);
	ENSURES("total size: refused exactly when the product does not fit", (ret == RRR_TYPE_PARSE_OK) == ((uint64_t) a * b <= UINT32_MAX) && (ret == RRR_TYPE_PARSE_OK || ret == RRR_TYPE_PARSE_SOFT_ERR));
	ENSURES("total size: it is the product", ret != RRR_TYPE_PARSE_OK || r == (uint64_t) a * b);
	VF_REACH("total size end");
#endif
}
void p_import_blob(void) {
#ifdef SIZE_STUB
	struct rrr_type_value v; memset(&v, 0, sizeof(v));
	vf_reg(&v, sizeof(v));
	v.element_count = nondet_u32(); v.import_length = nondet_u32();
	uint64_t n = VF_LEN64(0, VF_BOUND), total = nondet_u64(), w = nondet_u64();
	/* total is the product, by the contract of __rrr_type_get_total_size */
	g_total = total; g_args_count = v.element_count; g_args_size = v.import_length;
	char *b = vf_newbuf(n); vf_cpw[0] = w;
	char c = w < n ? b[w] : 0;
	rrr_length parsed = nondet_u32();
	int r = __rrr_type_import_blob(&v, &parsed, b, b + n);
	if (total <= UINT32_MAX) ENSURES("blob: incomplete exactly as long as bytes are missing", (r == RRR_TYPE_PARSE_INCOMPLETE) == (total > n));
	if (r == RRR_TYPE_PARSE_OK) {
		ENSURES("blob: all bytes of all elements are consumed and stored", parsed == total && v.total_stored_length == total && total <= n);
		ENSURES("blob: the bytes are copied exactly", w >= total || v.data[w] == c);
	}
	VF_REACH("import blob end");
#endif
}
void p_blob_to_64(void) {
	struct rrr_type_value v; memset(&v, 0, sizeof(v));
#ifdef VF_PROOF
	v.total_stored_length = nondet_u32();
	v.data = vf_new(v.total_stored_length ? v.total_stored_length : 1);
	unsigned n = v.total_stored_length > 8 ? 8 : v.total_stored_length;
	(void) n;
	uint64_t x = __rrr_type_blob_to_64(&v);
	ENSURES("the number of an empty blob is 0", v.total_stored_length != 0 || x == 0);
	VF_REACH("blob_to_64 end");
#else
	v.total_stored_length = vf_in8(0, 20);
	v.data = vf_newbuf(v.total_stored_length);
	uint64_t x = __rrr_type_blob_to_64(&v);
	unsigned n = v.total_stored_length > 8 ? 8 : v.total_stored_length;
	ENSURES("blob as number", x == (n ? spec_value((unsigned char *) v.data + v.total_stored_length - n, n, 1, 0) : 0));
#endif
}
void b_import(void) {
	struct rrr_type_value v; memset(&v, 0, sizeof(v));
	v.element_count = vf_u32() >> vf_in8(0, 31); v.import_length = vf_in8(1, 8); v.flags = vf_u8();
	rrr_length n = VF_LEN32(0, VF_BOUND), parsed = 0;
	char *b = vf_newbuf(n);
	int be = vf_bool();
	uint64_t total = (uint64_t) v.element_count * v.import_length;
	int r = (be ? rrr_type_definition_be : rrr_type_definition_le).do_import(&v, &parsed, b, b + n);
	if (total > n) ENSURES("an import that lacks bytes does not succeed", r != RRR_TYPE_PARSE_OK);
	else {
#ifdef VF_NATIVE
		ENSURES("a complete field is imported", r == RRR_TYPE_PARSE_OK);
#endif
		if (r == RRR_TYPE_PARSE_OK) {
			ENSURES("sizes", parsed == total && v.total_stored_length == 8 * v.element_count);
			for (unsigned i = 0; i < v.element_count && i < 8; i++)
				ENSURES("values", ((uint64_t *) v.data)[i] == spec_value((unsigned char *) b + i * v.import_length, v.import_length, be, v.flags & 1));
			char out[64]; rrr_length w; uint8_t id;
			if (v.total_stored_length <= 64 && v.total_stored_length > 0) {
				uint64_t keep[8]; memcpy(keep, v.data, v.total_stored_length);
				ENSURES("pack", __rrr_type_host_pack(out, &w, &id, &v) == 0 && w == v.total_stored_length && id == RRR_TYPE_BE);
				memcpy(v.data, out, w);
				ENSURES("unpack", __rrr_type_be_unpack(&v) == 0 && memcmp(v.data, keep, w) == 0);
			}
		}
	}
#ifdef VF_NATIVE
	free(v.data);
#endif
	VF_REACH("b_import end");
}
void b_unpack(void) {
	struct rrr_type_value *v = NULL;
	rrr_length n = VF_LEN32(0, VF_BOUND) * 8 + vf_in8(0, 1), count = vf_u32();
	if (vf_bool()) count = n / 8;
	char *b = vf_newbuf(n);
	int r = rrr_type_value_new_and_unpack(&v, &rrr_type_definition_be, b, 0, 0, n, count);
	if (r == 0) {
		ENSURES("accepted only when the size is that of the elements", n > 0 && n == 8 * (uint64_t) count && v->element_count == count);
		ENSURES("value readable", rrr_type_definition_h.to_64(v) == spec_value((unsigned char *) b, 8, 1, 0));
		rrr_type_value_destroy(v);
	}
	VF_REACH("b_unpack end");
}
