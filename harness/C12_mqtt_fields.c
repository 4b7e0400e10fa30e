//@ property C12
//@ proof p_vint_decode unwind=6 funcs=__rrr_mqtt_parse_variable_int
//@ proof p_vint_encode unwind=6 funcs=rrr_mqtt_payload_buf_put_variable_int native=0
//@ proof p_blob unwind=6 funcs=__rrr_mqtt_parse_blob
//@ proof p_blob_nullsafe unwind=6 funcs=__rrr_mqtt_parse_blob_nullsafe native=0
//@ proof p_property unwind=6 funcs=__rrr_mqtt_parse_property_one,__rrr_mqtt_parse_property_two,__rrr_mqtt_parse_property_four,__rrr_mqtt_parse_property_vint,__rrr_mqtt_parse_property_integer,rrr_mqtt_property_save_uint32,rrr_mqtt_property_get_uint32
//@ proof p_property_blob unwind=6 funcs=__rrr_mqtt_parse_property_blob
//@ proof p_put_raw unwind=2 timeout=400 cost=90 funcs=rrr_mqtt_payload_buf_put_raw,rrr_mqtt_payload_buf_ensure
//@ bounded b_vint_decode unwind=8 bound=6
//@ bounded b_vint_roundtrip unwind=8 bound=6
//@ bounded b_blob unwind=14 bound=8 fbound=200
//@ bounded b_property unwind=14 bound=8 fbound=200
//@ bounded b_put_raw unwind=14 bound=6 fbound=100 nobmc=1
#define VF_MEMCPY_WITNESS
#include "vf.h"
#include "rrr_types.h"
#ifdef VF_PROOF
static uint8_t g_put[8]; static rrr_length g_put_n; static int g_put_calls; static void *g_sess;
struct rrr_mqtt_payload_buf_session;
static int rrr_mqtt_payload_buf_put_raw__stub(struct rrr_mqtt_payload_buf_session *session, const void *data, rrr_length size) {
	CALLEE_PRE("put_raw: readable bytes", size >= 1 && size <= 8 && VF_R_OK(data, size));
	CALLEE_PRE("put_raw: session passed on", (void *) session == g_sess);
	for (unsigned i = 0; i < 4; i++) if (i < size) g_put[i] = ((const uint8_t *) data)[i];
	g_put_n = size; g_put_calls++;
	return nondet_bool();
}
#define PUT_RAW_REAL rrr_mqtt_payload_buf_put_raw__real
static const char *g_blob; static uint64_t g_blob_n; static int g_blob_calls, g_destroyed;
#else
#define PUT_RAW_REAL rrr_mqtt_payload_buf_put_raw
#endif
VF_OPAQUE(rrr_mqtt_payload_buf_put_raw)
VF_PTRCMP(rrr_mqtt_parse)
VF_PTRCMP(rrr_mqtt_payload_buf)
VF_PTRCMP(_ptr_sub_)
#include "mqtt/mqtt_payload_buf.c"
#undef PUT_RAW
#include "util/utf8.c"
#include "util/rrr_endian.c"
#ifdef VF_PROOF
/* contracts of the length-carrying string functions (property C23) */
struct rrr_nullsafe_str { int dummy; };
static struct rrr_nullsafe_str g_ns;
void rrr_nullsafe_str_destroy_if_not_null(struct rrr_nullsafe_str **s) { g_destroyed++; *s = NULL; }
int rrr_nullsafe_str_new_or_replace_raw(struct rrr_nullsafe_str **result, const void *str, rrr_nullsafe_len len) {
	CALLEE_PRE("nullsafe: readable bytes", VF_R_OK(str, len));
	g_blob = str; g_blob_n = len; g_blob_calls++;
	if (nondet_bool()) return 1;
	*result = &g_ns;
	return 0;
}
#else
#include "helpers/nullsafe_str.c"
#endif
#include "mqtt/mqtt_property.c"
#include "mqtt/mqtt_parse.c"

/* specification of a variable byte integer field at b with n bytes available:
 * >0 its size, 0 incomplete, -1 malformed */
static int spec_vint(const unsigned char *b, size_t n, uint32_t *v) {
	*v = 0;
	for (unsigned i = 0; i < 4; i++) {
		if (i >= n) return 0;
		*v |= (uint32_t) (b[i] & 127) << (7 * i);
		if (b[i] < 128) return (int) i + 1;
	}
	return -1;
}

void p_vint_decode(void) {
	uint64_t n = VF_LEN64(0, VF_BOUND);
	char *b = vf_newbuf(n);
	uint64_t off = vf_in64(0, 0xffffffffffffULL);
	REQUIRES(off <= n);
	uint32_t v = vf_u32(), sv; rrr_biglength used = vf_u64();
	int s = spec_vint((unsigned char *) b + off, n - off, &sv);
	int r = __rrr_mqtt_parse_variable_int(&v, b + off, b + n, &used);
	ENSURES("a complete field is decoded to its value", s <= 0 || (r == RRR_MQTT_OK && v == sv && used == (rrr_biglength) s));
	ENSURES("missing bytes are reported as incomplete", s != 0 || r == RRR_MQTT_INCOMPLETE);
	ENSURES("a fifth byte is refused", s != -1 || r == RRR_MQTT_SOFT_ERROR);
	VF_REACH("vint decode end");
}
void b_vint_decode(void) { p_vint_decode(); }

void p_vint_encode(void) {
#ifdef VF_PROOF
	struct rrr_mqtt_payload_buf_session s; g_sess = &s; g_put_calls = 0;
	uint32_t v = vf_in32(0, 0xfffffff), sv;
	int r = rrr_mqtt_payload_buf_put_variable_int(&s, v);
	(void) r;
	ENSURES("written at once", g_put_calls == 1);
	int k = spec_vint(g_put, g_put_n, &sv);
	ENSURES("decoding the written field gives the value", k == (int) g_put_n && sv == v);
	ENSURES("the field is as short as possible", g_put_n == (v < 0x80 ? 1 : v < 0x4000 ? 2 : v < 0x200000 ? 3 : 4));
	VF_REACH("vint encode end");
#endif
}

static int spec_blob(const unsigned char *b, uint64_t to_target, uint64_t to_end, uint16_t *len) {
	if (to_end < 2) return RRR_MQTT_INCOMPLETE;
	*len = (uint16_t) (b[0] << 8 | b[1]);
	if ((uint64_t) *len + 2 > to_target) return RRR_MQTT_SOFT_ERROR;
	if ((uint64_t) *len + 2 > to_end) return RRR_MQTT_INCOMPLETE;
	return RRR_MQTT_OK;
}
struct blob_in { char *b, *start; uint64_t n, target, off; };
/* buffer of n received bytes, packet of target bytes (possibly not fully received), field at off */
static struct blob_in blob_in(void) {
	struct blob_in x;
	x.n = VF_LEN64(0, VF_BOUND);
	x.target = VF_LEN64(0, VF_BOUND);
	x.b = vf_newbuf(x.n);
	x.off = VF_LEN64(0, VF_BOUND);
	REQUIRES(x.off <= x.n && x.off <= x.target);
	x.start = x.b + x.off;
	return x;
}
#ifdef VF_CBMC
#define NO_MEM_OK 1
#else
#define NO_MEM_OK 0
#endif
void p_blob(void) {
	struct blob_in x = blob_in();
	char *t = vf_bool() ? malloc(3) : NULL;
	uint16_t len = 0, sl = 0; rrr_biglength used = 0;
	uint16_t w = vf_u16();
	int s = spec_blob((unsigned char *) x.start, x.target - x.off, x.n - x.off, &sl);
	REQUIRES(sl == 0 || w < sl);
#ifdef VF_PROOF
	vf_cpw[0] = w;
#endif
	int r = __rrr_mqtt_parse_blob(&t, x.start, x.b + x.target, x.b + x.n, &used, &len);
	ENSURES("copied exactly when complete and inside the packet", r == s || (NO_MEM_OK && r == RRR_MQTT_INTERNAL_ERROR && t == NULL));
	if (r == 0) {
		ENSURES("length and consumed bytes", len == sl && used == (rrr_biglength) sl + 2);
		if (sl) ENSURES("the bytes of the field", t[w] == x.start[2 + w]);
		ENSURES("terminated", t[sl] == '\0');
		VF_REACH("blob ok");
	}
	free(t);
	VF_REACH("blob end");
}
void b_blob(void) {
	struct blob_in x = blob_in();
	uint16_t len = 0, sl = 0; rrr_biglength used = 0;
	int s = spec_blob((unsigned char *) x.start, x.target - x.off, x.n - x.off, &sl);
	char *t = NULL;
	int r = __rrr_mqtt_parse_blob(&t, x.start, x.b + x.target, x.b + x.n, &used, &len);
	ENSURES("copied exactly when complete and inside the packet", r == s || (NO_MEM_OK && r == RRR_MQTT_INTERNAL_ERROR && t == NULL));
	if (r == 0) {
		ENSURES("length and consumed bytes", len == sl && used == (rrr_biglength) sl + 2);
		ENSURES("the bytes of the field", memcmp(t, x.start + 2, sl) == 0);
		ENSURES("terminated", t[sl] == '\0');
	}
	free(t);
#ifdef VF_NATIVE
	struct rrr_nullsafe_str *ns = NULL;
	if (vf_bool()) rrr_nullsafe_str_new_or_replace_raw(&ns, "x", 1);
	used = 0; len = 0;
	r = __rrr_mqtt_parse_blob_nullsafe(&ns, x.start, x.b + x.target, x.b + x.n, &used, &len);
	ENSURES("nullsafe: copied exactly when complete and inside the packet", r == s);
	if (r == 0) {
		ENSURES("nullsafe: length and consumed bytes", len == sl && used == (rrr_biglength) sl + 2 && ns->len == sl);
		ENSURES("nullsafe: the bytes of the field", sl == 0 || memcmp(ns->str, x.start + 2, sl) == 0);
	}
	else ENSURES("nullsafe: nothing stored", ns == NULL);
	rrr_nullsafe_str_destroy_if_not_null(&ns);
#endif
	VF_REACH("b_blob end");
}
void p_blob_nullsafe(void) {
#ifdef VF_PROOF
	struct blob_in x = blob_in();
	struct rrr_nullsafe_str *t = nondet_bool() ? &g_ns : NULL;
	uint16_t len = 0, sl = 0; rrr_biglength used = 0;
	int s = spec_blob((unsigned char *) x.start, x.target - x.off, x.n - x.off, &sl);
	g_blob_calls = 0; g_destroyed = 0;
	int r = __rrr_mqtt_parse_blob_nullsafe(&t, x.start, x.b + x.target, x.b + x.n, &used, &len);
	ENSURES("stored exactly when complete and inside the packet", r == s || (s == 0 && r == RRR_MQTT_INTERNAL_ERROR && t == NULL));
	ENSURES("exactly the field is stored", s != 0 ? g_blob_calls == 0 && t == NULL : g_blob_calls == 1 && g_blob == x.start + 2 && g_blob_n == sl);
	ENSURES("length and consumed bytes", r != 0 || (len == sl && used == (rrr_biglength) sl + 2));
	ENSURES("the previous value is released once", g_destroyed == 1);
	VF_REACH("blob nullsafe end");
#endif
}

static void property_common(int blobs) {
	struct blob_in x = blob_in();
	struct rrr_mqtt_parse_session s; memset(&s, 0, sizeof(s));
	s.buf = x.b; s.buf_wpos = x.n; s.target_size = x.target;
	struct rrr_mqtt_property p; memset(&p, 0, sizeof(p));
	rrr_biglength used = 0;
	const unsigned char *q = (const unsigned char *) x.start;
	uint64_t left = x.n - x.off;
	int r, k; uint32_t v = 0; uint16_t bl = 0;
	int what = blobs ? vf_in8(4, 4) : vf_in8(0, 3);
	switch (what) {
	case 0: r = __rrr_mqtt_parse_property_one(&p, &s, x.start, &used); k = left < 1 ? 0 : 1; if (k) v = q[0]; break;
	case 1: r = __rrr_mqtt_parse_property_two(&p, &s, x.start, &used); k = left < 2 ? 0 : 2; if (k) v = (uint32_t) (q[0] << 8 | q[1]); break;
	case 2: r = __rrr_mqtt_parse_property_four(&p, &s, x.start, &used); k = left < 4 ? 0 : 4; if (k) v = (uint32_t) q[0] << 24 | (uint32_t) (q[1] << 16 | q[2] << 8 | q[3]); break;
	case 3: r = __rrr_mqtt_parse_property_vint(&p, &s, x.start, &used); k = spec_vint(q, left, &v); break;
	default:
		r = __rrr_mqtt_parse_property_blob(&p, &s, x.start, &used);
		k = spec_blob(q, x.target - x.off, left, &bl);
		ENSURES("binary property: parsed exactly when complete and inside the packet", r == k || (NO_MEM_OK && r == RRR_MQTT_INTERNAL_ERROR));
		ENSURES("binary property: consumes exactly its own bytes", r != 0 || (used == (rrr_biglength) bl + 2 && p.length == bl && p.internal_data_type == RRR_MQTT_PROPERTY_DATA_TYPE_INTERNAL_BLOB));
		free(p.data);
		return;
	}
	ENSURES("property: incomplete or malformed is reported", k > 0 || r == (k == 0 ? RRR_MQTT_INCOMPLETE : RRR_MQTT_SOFT_ERROR));
	if (k > 0) {
		ENSURES("property: accepted", r == 0 || (NO_MEM_OK && p.data == NULL));
		if (r == 0) {
			ENSURES("property: consumes exactly its own bytes", used == (rrr_biglength) k);
			ENSURES("property: exact value", rrr_mqtt_property_get_uint32(&p) == v);
		}
	}
	free(p.data);
}
void p_property(void) { property_common(0); VF_REACH("property end"); }
void p_property_blob(void) { property_common(1); VF_REACH("property end"); }
void b_property(void) { property_common(vf_bool()); VF_REACH("property end"); }

void p_put_raw(void) {
	uint32_t bs = VF_LEN32(1, VF_BOUND), wmax = VF_LEN32(0, VF_BOUND), wpos = VF_LEN32(0, VF_BOUND), n = VF_LEN32(1, VF_BOUND);
	REQUIRES(bs <= 0x3fffffff && n <= 0x3fffffff && wmax <= bs && wpos <= wmax);
	struct rrr_mqtt_payload_buf_session s;
	s.buf = vf_newbuf(bs); s.buf_size = bs; s.wpos = s.buf + wpos; s.wpos_max = s.buf + wmax;
	char *d = vf_newbuf(n), *ob = s.buf;
	/* witness: any offset of the result */
	uint32_t w = vf_u32(); uint32_t nmax = wpos + n > wmax ? wpos + n : wmax;
	REQUIRES(w < nmax);
	char expect = w >= wpos && w - wpos < n ? d[w - wpos] : s.buf[w];
#ifdef VF_PROOF
	if (w >= wpos) vf_cpw[0] = w - wpos;
	vf_cpw[1] = w;
#endif
	int r = PUT_RAW_REAL(&s, d, n);
	if (r == 0) {
		ENSURES("the bytes are written at the position and nothing before or after is lost", s.buf[w] == expect);
		ENSURES("the position moves past the bytes", s.wpos == s.buf + wpos + n);
		ENSURES("the written size is the highest position", rrr_mqtt_payload_buf_get_touched_size(&s) == nmax && s.wpos_max == s.buf + nmax);
		ENSURES("inside the buffer", nmax <= s.buf_size);
		VF_REACH("put ok");
	}
	else ENSURES("only out of memory fails and then nothing changes", NO_MEM_OK && s.buf == ob && s.wpos == ob + wpos && s.wpos_max == ob + wmax);
	if (s.buf != ob) vf_gone(ob);
#ifdef VF_NATIVE
	if (s.buf != ob) free(s.buf);
#endif
	VF_REACH("put end");
}
void b_put_raw(void) { p_put_raw(); }
void b_vint_roundtrip(void) {
#ifndef VF_PROOF
	struct rrr_mqtt_payload_buf_session s;
	REQUIRES(rrr_mqtt_payload_buf_init(&s) == 0);
	uint32_t v = vf_in32(0, 0xfffffff) >> vf_in8(0, 28), d = 0, sv; rrr_biglength used = 0;
	int r = rrr_mqtt_payload_buf_put_variable_int(&s, v);
	ENSURES("encoded", r == 0);
	uint64_t n = rrr_mqtt_payload_buf_get_touched_size(&s);
	ENSURES("shortest", n == (v < 0x80 ? 1 : v < 0x4000 ? 2 : v < 0x200000 ? 3 : 4));
	ENSURES("specified field", spec_vint((unsigned char *) s.buf, n, &sv) == (int) n && sv == v);
	ENSURES("decodes to the value", __rrr_mqtt_parse_variable_int(&d, s.buf, s.buf + n, &used) == 0 && d == v && used == n);
	rrr_mqtt_payload_buf_destroy(&s);
	VF_REACH("roundtrip end");
#endif
}
