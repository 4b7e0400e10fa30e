//@ property C05
//@ proof p_target_size unwind=20 native=0 funcs=rrr_msg_get_target_size_and_check_checksum
//@ proof p_head unwind=20 native=0 funcs=rrr_msg_head_to_host_and_verify,__rrr_msg_head_validate
//@ proof p_data_checksum unwind=20 native=0 funcs=rrr_msg_check_data_checksum_and_length
//@ proof p_receive unwind=20 cost=20 native=0 funcs=rrr_msg_to_host_and_verify_with_callback,rrr_msg_msg_to_host_and_verify,__message_validate,rrr_msg_addr_to_host,rrr_msg_msg_log_to_host
//@ proof p_stats unwind=2 defs=-DVF_CPW_FIXED=0,-DVF_CPW_N=1 cost=20 native=0 funcs=rrr_msg_stats_flip_and_unpack,rrr_msg_stats_unpack,__rrr_msg_stats_unpack
//@ proof p_to_network unwind=20 native=0 funcs=rrr_msg_checksum_and_to_network_endian
//@ proof p_prepare unwind=20 native=0 funcs=rrr_msg_msg_prepare_for_network,rrr_msg_msg_log_prepare_for_network
//@ proof p_new unwind=2 defs=-DVF_CPW_FIXED=0,-DVF_CPW_N=3 native=0 funcs=rrr_msg_msg_new_with_data,rrr_msg_msg_new_empty,rrr_msg_populate_head
//@ proof p_topic_set unwind=2 defs=-DVF_CPW_FIXED=0,-DVF_CPW_N=3 native=0 funcs=rrr_msg_msg_topic_set,rrr_msg_msg_duplicate_no_data_with_size
//@ proof p_duplicate unwind=2 defs=-DVF_CPW_FIXED=30 native=0 funcs=rrr_msg_msg_duplicate,rrr_msg_msg_duplicate_no_data
//@ proof p_topic_get unwind=2 native=0 funcs=rrr_msg_msg_topic_and_length_get,rrr_msg_msg_topic_get
//@ proof p_log_to_str unwind=2 native=0 funcs=rrr_msg_msg_log_to_str
//@ proof p_addr unwind=2 native=0 funcs=rrr_msg_addr_init,rrr_msg_addr_init_head,rrr_msg_addr_new,rrr_msg_addr_clone
//@ bounded b_receive unwind=2 nobmc=1 bound=1400 maxlen=1500 always=1
//@ bounded b_roundtrip unwind=2 nobmc=1 bound=60 maxlen=400 always=1
//@ assume the CRC of a byte string by its contract (proved in C06), UTF-8 validation by its contract (proved in C04)
//@ assume building log and statistics messages from C strings (strlen) is covered by b_roundtrip only (bounded)
#define VF_MEMCPY_WITNESS
#include "vf.h"
#include "rrr_types.h"
#include "read_constants.h"
#ifdef VF_PROOF
/* contracts: CRC (C06) and UTF-8 (C04). Calls are recorded so that the proofs state which bytes are covered. */
static const char *g_crc_buf[4]; static uint64_t g_crc_len[4]; static uint32_t g_crc_arg[4], g_crc_ret[4]; static unsigned g_crc_n;
static char g_hdr[18]; static const char *g_utf8_buf; static uint64_t g_utf8_len; static int g_utf8_ret, g_utf8_n;
static uint32_t crc_call(const char *b, uint64_t n, uint32_t arg) {
	CALLEE_PRE("crc: readable bytes", n == 0 || VF_R_OK(b, n));
	unsigned k = g_crc_n < 3 ? g_crc_n : 3;
	g_crc_buf[k] = b; g_crc_len[k] = n; g_crc_arg[k] = arg; g_crc_n++;
	if (n == 14) for (unsigned i = 0; i < 14; i++) g_hdr[4 + i] = b[i];
	return g_crc_ret[k];
}
uint32_t rrr_crc32cmp(const char *b, rrr_biglength n, uint32_t c) { return crc_call(b, n, c); }
uint32_t rrr_crc32buf(const char *b, rrr_biglength n) { return crc_call(b, n, 0); }
int rrr_utf8_validate(const char *b, rrr_biglength n) {
	CALLEE_PRE("utf8: readable bytes", n == 0 || VF_R_OK(b, n));
	g_utf8_buf = b; g_utf8_len = n; g_utf8_n++;
	return g_utf8_ret;
}
static void crc_init(void) { g_crc_ret[0] = nondet_u32(); g_crc_ret[1] = nondet_u32(); g_crc_n = 0; g_utf8_ret = nondet_bool(); g_utf8_n = 0; }
#else
#include "util/crc32.c"
#include "util/utf8.c"
#endif
#include "util/rrr_endian.c"
#include "stats/stats_message.c"
#ifdef VF_PROOF
static int g_stats_ret, g_stats_n; static const void *g_stats_src; static uint64_t g_stats_len;
static int rrr_msg_stats_flip_and_unpack__stub(struct rrr_msg_stats *t, const struct rrr_msg_stats_packed *s, rrr_length n) {
	g_stats_src = s; g_stats_len = n; g_stats_n++; (void) t;
	return g_stats_ret;
}
#define STATS_UNPACK rrr_msg_stats_flip_and_unpack__real
#else
#define STATS_UNPACK rrr_msg_stats_flip_and_unpack
#endif
VF_OPAQUE(rrr_msg_stats_flip_and_unpack)
#include "messages/msg.c"
#include "messages/msg_msg.c"
#include "messages/msg_addr.c"
#include "messages/msg_log.c"
#include "messages/msg_checksum.c"

static uint32_t be32(const char *p) { const unsigned char *b = (const unsigned char *) p; return (uint32_t) b[0] << 24 | (uint32_t) b[1] << 16 | (uint32_t) b[2] << 8 | b[3]; }
static uint16_t be16(const char *p) { const unsigned char *b = (const unsigned char *) p; return (uint16_t) (b[0] << 8 | b[1]); }
static uint64_t be64(const char *p) { return (uint64_t) be32(p) << 32 | be32(p + 4); }
static int spec_type_ok(uint16_t t) {
	if (t & 1) return (t & ~0xf03d) == 0;
	return t == 2 || t == 4 || t == 6 || t == 8 || t == 16;
}

void p_target_size(void) {
#ifdef VF_PROOF
	crc_init();
	rrr_length n = nondet_u32(), target = 12345;
	char *b = vf_newbuf(n);
	int r = rrr_msg_get_target_size_and_check_checksum(&target, (struct rrr_msg *) b, n);
	if (n < 18) ENSURES("a header that has not fully arrived is incomplete", r == RRR_READ_INCOMPLETE);
	else {
		ENSURES("the header checksum covers the rest of the header", g_crc_n == 1 && g_crc_buf[0] == b + 4 && g_crc_len[0] == 14 && g_crc_arg[0] == be32(b));
		int good = g_crc_ret[0] == 0 && be32(b + 4) >= 18;
		ENSURES("accepted exactly with matching checksum and possible size", r == (good ? RRR_READ_OK : RRR_READ_SOFT_ERROR));
		ENSURES("the size is the stated one", !good || target == be32(b + 4));
		ENSURES("no size of refused messages", good || target == 0);
	}
	VF_REACH("target size end");
#endif
}
void p_head(void) {
#ifdef VF_PROOF
	crc_init();
	rrr_length n = nondet_u32(), expected = nondet_u32(); REQUIRES(n >= 18);
	char *b = vf_newbuf(n), h[18]; uint64_t w = nondet_u64(); REQUIRES(w >= 18);
	char c = w < n ? b[w] : 0;
	for (int i = 0; i < 18; i++) h[i] = b[i];
	int r = rrr_msg_head_to_host_and_verify((struct rrr_msg *) b, expected);
	struct rrr_msg *m = (struct rrr_msg *) b;
	ENSURES("accepted exactly when the stated size is the received size and the type is known", (r == 0) == (be32(h + 4) == expected && expected >= 18 && spec_type_ok(be16(h + 8))));
	ENSURES("values in host order", m->msg_size == be32(h + 4) && m->msg_type == be16(h + 8) && m->msg_value == be32(h + 10) && m->data_crc32 == be32(h + 14));
	ENSURES("only the header is changed", w >= n || b[w] == c);
	VF_REACH("head end");
#endif
}
void p_data_checksum(void) {
#ifdef VF_PROOF
	crc_init();
	rrr_length n = nondet_u32(); REQUIRES(n >= 18);
	char *b = vf_newbuf(n); struct rrr_msg *m = (struct rrr_msg *) b;
	uint64_t w = nondet_u64(); REQUIRES(w >= 18);
	char c = w < n ? b[w] : 0;
	struct rrr_msg o = *m;
	int r = rrr_msg_check_data_checksum_and_length(m, n);
	ENSURES("accepted exactly when the size matches and the checksum is that of the data", (r == 0) == (o.msg_size == n && g_crc_ret[0] == 0));
	ENSURES("the checksum covers all data", o.msg_size != n || (g_crc_n == 1 && g_crc_buf[0] == b + 18 && g_crc_len[0] == n - 18 && g_crc_arg[0] == o.data_crc32));
	ENSURES("size, type and value are kept", m->msg_size == o.msg_size && m->msg_type == o.msg_type && m->msg_value == o.msg_value && (w >= n || b[w] == c));
	VF_REACH("data checksum end");
#endif
}

static int g_cb, g_cb_ret; static const void *g_cb_msg;
static int cb_msg(struct rrr_msg_msg **m, void *a, void *b) { (void)b; ENSURES("callback argument", a == &g_cb); g_cb |= 1 << 8 | 1; g_cb_msg = *m; return g_cb_ret; }
static int cb_addr(const struct rrr_msg_addr *m, void *a, void *b) { (void)b; ENSURES("callback argument", a == &g_cb); g_cb |= 2 << 8 | 2; g_cb_msg = m; return g_cb_ret; }
static int cb_log(const struct rrr_msg_log *m, void *a, void *b) { (void)b; ENSURES("callback argument", a == &g_cb); g_cb |= 4 << 8 | 4; g_cb_msg = m; return g_cb_ret; }
static int cb_ctrl(const struct rrr_msg *m, void *a, void *b) { (void)b; ENSURES("callback argument", a == &g_cb); g_cb |= 8 << 8 | 8; g_cb_msg = m; return g_cb_ret; }
#ifdef VF_NATIVE
static struct rrr_msg_stats g_stats_copy;
#endif
static int cb_stats(const struct rrr_msg_stats *m, void *a, void *b) { (void)b; ENSURES("callback argument", a == &g_cb); g_cb |= 16 << 8 | 16;
#ifdef VF_NATIVE
	g_stats_copy = *m;
#else
	(void)m;
#endif
	return g_cb_ret; }

/* what a frame of n bytes in network order (header size and checksums good) must satisfy: bit of the callback or 0 */
static int spec_frame(const char *b, uint64_t n, int utf8_bad, int stats_bad) {
	uint16_t t = be16(b + 8);
	if (t & 1) return 8;
	if (t == 2) {
		if (n < 30) return 0;
		uint16_t topic = be16(b + 28);
		unsigned type = b[26] & 15, class = ((unsigned char) b[26]) >> 4;
		return topic <= n - 30 && type >= 1 && type <= 5 && (class == 1 || class == 11) && !utf8_bad ? 1 : 0;
	}
	if (t == 8) return n >= 19 && n <= 19 + 128 ? 2 : 0;
	if (t == 16) {
		/* header, file 128, line 4, three flags, prefix size 2, text */
		if (n < 18 + 128 + 4 + 3 + 2 + 1) return 0;
		uint16_t prefix = be16(b + 153);
		if (prefix >= n - 155) return 0;
		if (prefix > 0 && b[155 + prefix - 1]) return 0;
		return b[n - 1] ? 0 : 4;
	}
	if (t == 6) {
		if (stats_bad >= 0) return stats_bad ? 0 : 16;
		if (n < 25 || n > 25 + 513 + 512) return 0;
		uint16_t path = be16(b + 23);
		uint8_t k = (uint8_t) b[18];
		if (be32(b + 19) & ~15U) return 0;
		if (k != RRR_STATS_MESSAGE_TYPE_KEEPALIVE && k != RRR_STATS_MESSAGE_TYPE_TEXT && k != RRR_STATS_MESSAGE_TYPE_BASE10_TEXT && k != RRR_STATS_MESSAGE_TYPE_DOUBLE_TEXT) return 0;
		if (path > n - 25 || path > 513 || n - 25 - path > 512) return 0;
		if (path > 0 && b[25 + path - 1]) return 0;
		return 16;
	}
	return 0;
}
void p_receive(void) {
#ifdef VF_PROOF
	crc_init();
	rrr_length n = nondet_u32(), expected = nondet_u32(); REQUIRES(n >= 18 && expected == n);
	char *b = vf_newbuf(n); struct rrr_msg *m = (struct rrr_msg *) b;
	g_cb = 0; g_cb_ret = (int) nondet_u32(); g_stats_ret = nondet_bool(); g_stats_n = 0;
	int want = be32(b + 4) == n && spec_type_ok(be16(b + 8)) && g_crc_ret[0] == 0 ? spec_frame(b, n, g_utf8_ret, g_stats_ret) : 0;
	uint16_t type = be16(b + 8), topic = n >= 30 ? be16(b + 28) : 0, prefix = n >= 156 ? be16(b + 153) : 0;
	uint32_t value = be32(b + 10); uint64_t stamp = n >= 30 ? be64(b + 18) : 0; uint32_t line = n >= 156 ? be32(b + 146) : 0;
	uint64_t w = nondet_u64(); REQUIRES(w >= 18 && w < n); char c = b[w];
	struct rrr_msg *mm = m;
	int have = nondet_bool();
	int r = rrr_msg_to_host_and_verify_with_callback(&mm, expected, have ? cb_msg : NULL, have ? cb_addr : NULL, have ? cb_log : NULL, have ? cb_ctrl : NULL, have ? cb_stats : NULL, &g_cb, NULL);
	if (!have) want = 0;
	ENSURES("delivered once to the callback of its type exactly when well formed", g_cb == (want << 8 | want));
	ENSURES("refused softly otherwise", want ? r == g_cb_ret : r == RRR_READ_SOFT_ERROR);
	ENSURES("the message stays where it is", mm == m);
	ENSURES("statistics unpacked from the whole frame", g_stats_n == 0 || (g_stats_n == 1 && g_stats_src == b && g_stats_len == n));
	if (want) {
		ENSURES("the receiver gets this message", want == 16 || g_cb_msg == m);
		ENSURES("the checksum covers all data", g_crc_n == 1 && g_crc_buf[0] == b + 18 && g_crc_len[0] == n - 18);
		ENSURES("header values", m->msg_size == n && m->msg_type == type && m->msg_value == value);
		if (want == 1) {
			struct rrr_msg_msg *x = (struct rrr_msg_msg *) m;
			ENSURES("topic validated whole", g_utf8_n == 1 && g_utf8_buf == b + 30 && g_utf8_len == topic);
			ENSURES("message values", x->timestamp == stamp && x->topic_length == topic);
			ENSURES("topic and data fill the frame", MSG_TOPIC_PTR(x) == b + 30 && MSG_DATA_PTR(x) == b + 30 + topic && MSG_DATA_LENGTH(x) == n - 30 - topic);
			ENSURES("type, topic and data are unchanged", (w >= 18 && w < 26) || w == 28 || w == 29 || b[w] == c);
		}
		if (want == 4) {
			struct rrr_msg_log *x = (struct rrr_msg_log *) m;
			ENSURES("log values", x->line == line && x->prefix_size == prefix);
			ENSURES("prefix and text fill the frame", RRR_MSG_LOG_MSG_POS(x) == b + 155 + prefix && RRR_MSG_LOG_MSG_SIZE(x) == n - 155 - prefix);
			ENSURES("other fields, prefix and text are unchanged", (w >= 146 && w < 150) || w == 153 || w == 154 || b[w] == c);
		}
		if (want == 2) {
			struct rrr_msg_addr *x = (struct rrr_msg_addr *) m;
			ENSURES("the address fills the frame and fits", RRR_MSG_ADDR_GET_ADDR_LEN(x) == n - 19 && n - 19 <= sizeof(x->addr) && b[w] == c);
		}
		if (want == 8) ENSURES("data of control messages unchanged", b[w] == c);
		VF_REACH("receive accepted");
	}
	VF_REACH("receive end");
#endif
}
void p_stats(void) {
#ifdef VF_PROOF
	crc_init();
	rrr_length n = nondet_u32(); REQUIRES(n >= 18);
	/* the declared array of the packed struct must exist for CBMC; that bytes after the n received
	 * ones are not used follows as the postconditions fix every output as a function of the first n */
	char *b = vf_newbuf(n > sizeof(struct rrr_msg_stats_packed) ? n : sizeof(struct rrr_msg_stats_packed)); uint32_t value = ((struct rrr_msg *) b)->msg_value;
	static struct rrr_msg_stats t;
	uint16_t type = 6;
	int flip = nondet_bool();
	uint64_t w = nondet_u64(); vf_cpw[0] = w;
	/* the frame in network order and its values */
	uint16_t path = n >= 25 ? (flip ? be16(b + 23) : *(uint16_t *) (b + 23)) : 0;
	uint32_t flags = n >= 25 ? (flip ? be32(b + 19) : *(uint32_t *) (b + 19)) : 0;
	uint8_t k = n >= 25 ? (uint8_t) b[18] : 0;
	int good = n >= 25 && n <= 25 + 513 + 512 && !(flags & ~15U)
		&& (k == RRR_STATS_MESSAGE_TYPE_KEEPALIVE || k == RRR_STATS_MESSAGE_TYPE_TEXT || k == RRR_STATS_MESSAGE_TYPE_BASE10_TEXT || k == RRR_STATS_MESSAGE_TYPE_DOUBLE_TEXT)
		&& path <= n - 25 && path <= 513 && n - 25 - path <= 512 && (path == 0 || b[25 + path - 1] == 0);
	int r = flip ? STATS_UNPACK(&t, (struct rrr_msg_stats_packed *) b, n) : rrr_msg_stats_unpack(&t, (struct rrr_msg_stats_packed *) b, n);
	ENSURES("accepted exactly when well formed", (r == 0) == good && (r == 0 || r == RRR_READ_SOFT_ERROR));
	if (r == 0) {
		ENSURES("values", t.flags == flags && t.type == k && t.timestamp == value && t.data_size == n - 25 - path);
		ENSURES("path", w >= path || t.path[w] == b[25 + w]);
		ENSURES("data", w >= t.data_size || t.data[w] == b[25 + path + w]);
		VF_REACH("stats accepted");
	}
	(void) type;
	VF_REACH("stats end");
#endif
}
void p_to_network(void) {
#ifdef VF_PROOF
	crc_init();
	rrr_length n = nondet_u32(); REQUIRES(n >= 18);
	char *b = vf_newbuf(n); struct rrr_msg *m = (struct rrr_msg *) b, o = *m; REQUIRES(m->msg_size == n);
	uint64_t w = nondet_u64(); REQUIRES(w >= 18 && w < n); char c = b[w];
	rrr_msg_checksum_and_to_network_endian(m);
	uint32_t dc = n > 18 ? g_crc_ret[0] : 0; unsigned h = n > 18;
	if (n > 18) ENSURES("data checksum over all data", g_crc_buf[0] == b + 18 && g_crc_len[0] == n - 18);
	ENSURES("header checksum over the header", g_crc_n == h + 1 && g_crc_buf[h] == b + 4 && g_crc_len[h] == 14);
	for (unsigned i = 4; i < 18; i++) ENSURES("the header is not changed after its checksum was made", g_hdr[i] == b[i]);
	ENSURES("checksums stored", be32(b) == g_crc_ret[h] && be32(b + 14) == dc);
	ENSURES("fields in network order", be32(b + 4) == n && be16(b + 8) == o.msg_type && be32(b + 10) == o.msg_value);
	ENSURES("data unchanged", b[w] == c);
	VF_REACH("to network end");
#endif
}
void p_prepare(void) {
#ifdef VF_PROOF
	crc_init();
	rrr_length n = nondet_u32(); REQUIRES(n >= 156);
	char *b = vf_newbuf(n); uint64_t w = nondet_u64(); REQUIRES(w < n); char c = b[w];
	((struct rrr_msg *) b)->msg_size = n; c = b[w];
	struct rrr_msg_msg *m = (struct rrr_msg_msg *) b; struct rrr_msg_log *l = (struct rrr_msg_log *) b;
	if (nondet_bool()) {
		uint64_t t = m->timestamp; uint16_t k = m->topic_length;
		rrr_msg_msg_prepare_for_network(m);
		ENSURES("fields in network order", be64(b + 18) == t && be16(b + 28) == k);
		ENSURES("nothing else changes", (w >= 18 && w < 26) || w == 28 || w == 29 || b[w] == c);
	}
	else {
		uint16_t k = l->prefix_size; uint32_t t = l->line;
		rrr_msg_msg_log_prepare_for_network(l);
		ENSURES("log fields in network order", be16(b + 153) == k && be32(b + 146) == t);
		ENSURES("nothing else changes", (w >= 146 && w < 150) || w == 153 || w == 154 || b[w] == c);
	}
	VF_REACH("prepare end");
#endif
}
void p_new(void) {
#ifdef VF_PROOF
	uint16_t tl = nondet_u16(); uint32_t dl = nondet_u32();
	char *topic = nondet_bool() ? vf_newbuf(tl) : NULL, *data = nondet_bool() ? vf_newbuf(dl) : NULL;
	uint64_t stamp = nondet_u64(), w = nondet_u64(); vf_cpw[0] = w; vf_cpw[1] = 30 + w; vf_cpw[2] = 30 + (uint64_t) tl + w; REQUIRES(w <= UINT32_MAX);
	uint8_t ty = vf_in8(1, 5), cl = vf_bool() ? 1 : 11;
	struct rrr_msg_msg *m = NULL;
	int r = rrr_msg_msg_new_with_data(&m, ty, cl, stamp, topic, tl, data, dl);
	uint64_t total = 30 + (uint64_t) tl + dl;
	ENSURES("too large messages are refused", total <= UINT32_MAX || r != 0);
	ENSURES("no message on failure", r == 0 || m == NULL);
	if (r == 0) {
		ENSURES("header", m->msg_size == total && m->msg_type == 2 && VF_OBJSIZE(m) >= total);
		ENSURES("fields", MSG_TYPE(m) == ty && MSG_CLASS(m) == cl && m->timestamp == stamp && m->topic_length == tl);
		ENSURES("lengths", MSG_DATA_LENGTH(m) == dl && MSG_TOPIC_LENGTH(m) == tl);
		if (topic && w < tl) ENSURES("topic", MSG_TOPIC_PTR(m)[w] == topic[w]);
		if (data && w < dl) ENSURES("data", MSG_DATA_PTR(m)[w] == data[w]);
		VF_REACH("new ok");
	}
	VF_REACH("new end");
#endif
}
#ifdef VF_PROOF
/* an accepted message: any frame the receive contract accepts */
static struct rrr_msg_msg *any_msg(void) {
	uint32_t n = nondet_u32(); REQUIRES(n >= 30);
	struct rrr_msg_msg *m = vf_new(n);
	REQUIRES(m->msg_size == n && m->topic_length <= n - 30);
	return m;
}
#endif
void p_topic_set(void) {
#ifdef VF_PROOF
	struct rrr_msg_msg *m = any_msg(), *o = m;
	uint16_t tl = nondet_u16(); char *topic = vf_newbuf(tl);
	uint64_t w = nondet_u64(); REQUIRES(w <= UINT32_MAX); vf_cpw[0] = w;
	uint32_t dl = MSG_DATA_LENGTH(m);
	REQUIRES((uint64_t) 30 + tl + dl <= UINT32_MAX);
	char c = w < dl ? MSG_DATA_PTR(m)[w] : 0; uint64_t stamp = m->timestamp; uint8_t tc = m->type_and_class; uint16_t mt = m->msg_type; uint32_t mv = m->msg_value; uint8_t ver = m->version;
	int r = rrr_msg_msg_topic_set(&m, topic, tl);
	if (r == 0) {
		ENSURES("topic replaced", m->topic_length == tl && m->msg_size == 30 + (uint32_t) tl + dl && (w >= tl || MSG_TOPIC_PTR(m)[w] == topic[w]));
		ENSURES("data kept", MSG_DATA_LENGTH(m) == dl && (w >= dl || MSG_DATA_PTR(m)[w] == c));
		ENSURES("the rest kept", m->timestamp == stamp && m->type_and_class == tc && m->msg_type == mt && m->msg_value == mv && m->version == ver);
		VF_REACH("topic set ok");
	} else ENSURES("untouched on failure", m == o);
	VF_REACH("topic set end");
#endif
}
void p_duplicate(void) {
#ifdef VF_PROOF
	struct rrr_msg_msg *m = any_msg();
	uint64_t w = nondet_u64(); vf_cpw[0] = w;
	struct rrr_msg_msg *d = rrr_msg_msg_duplicate(m);
	if (d) ENSURES("the copy is the same message", d->msg_size == m->msg_size && (w >= m->msg_size || ((char *) d)[w] == ((char *) m)[w]));
	struct rrr_msg_msg *e = rrr_msg_msg_duplicate_no_data(m);
	if (e) {
		ENSURES("no data", e->msg_size == 30 + (uint32_t) m->topic_length && MSG_DATA_LENGTH(e) == 0 && e->topic_length == m->topic_length);
		ENSURES("same topic and head", w >= e->msg_size || (w >= 4 && w < 8) || ((char *) e)[w] == ((char *) m)[w]);
	}
	VF_REACH("duplicate end");
#endif
}
void p_topic_get(void) {
#ifdef VF_PROOF
	struct rrr_msg_msg *m = any_msg();
	uint64_t w = nondet_u64(); vf_cpw[0] = w;
	char *t = NULL; uint16_t l = 0;
	int r = nondet_bool() ? rrr_msg_msg_topic_and_length_get(&t, &l, m) : (l = m->topic_length, rrr_msg_msg_topic_get(&t, m));
	if (r == 0) ENSURES("the topic, terminated", l == m->topic_length && t[l] == 0 && (w >= l || t[w] == MSG_TOPIC_PTR(m)[w]));
	VF_REACH("topic get end");
#endif
}
void p_log_to_str(void) {
#ifdef VF_PROOF
	uint32_t n = nondet_u32(); REQUIRES(n >= 156);
	struct rrr_msg_log *m = vf_new(n);
	REQUIRES(m->msg_size == n && m->prefix_size < n - 155);
	uint64_t w = nondet_u64(); vf_cpw[0] = w;
	char *p = NULL, *t = NULL;
	int r = rrr_msg_msg_log_to_str(&p, &t, m);
	if (r == 0) {
		uint32_t pl = m->prefix_size, tl = n - 155 - pl;
		ENSURES("prefix, terminated", p[pl] == 0 && (w >= pl || p[w] == ((char *) m)[155 + w]));
		ENSURES("text, terminated", t[tl] == 0 && (w >= tl || t[w] == ((char *) m)[155 + pl + w]));
	} else ENSURES("nothing on failure", p == NULL && t == NULL);
	VF_REACH("log to str end");
#endif
}
void p_addr(void) {
#ifdef VF_PROOF
	struct rrr_msg_addr *a = NULL, *c = NULL;
	if (rrr_msg_addr_new(&a) == 0) {
		ENSURES("empty address", RRR_MSG_ADDR_GET_ADDR_LEN(a) == 0 && a->msg_type == 8 && RRR_MSG_ADDR_SIZE_OK(a));
		uint32_t l = vf_in32(0, 128);
		rrr_msg_addr_init_head(a, l);
		ENSURES("address length", RRR_MSG_ADDR_GET_ADDR_LEN(a) == l && RRR_MSG_ADDR_SIZE_OK(a));
		unsigned w = vf_in8(0, 127); a->addr[w] = (char) nondet_u8(); a->protocol = nondet_u8();
		if (rrr_msg_addr_clone(&c, a) == 0) {
			ENSURES("the clone is the same", c != a && c->msg_size == a->msg_size && c->addr[w] == a->addr[w] && c->protocol == a->protocol && c->msg_type == 8);
			free(c);
		}
		free(a);
	}
	VF_REACH("addr end");
#endif
}

void b_receive(void) {
#ifdef VF_NATIVE
	/* a frame with mostly plausible fields, so that all checks are reached */
	uint32_t n = vf_bool() ? vf_in16(0, 1200) : vf_in8(18, 60);
	switch (vf_in8(0, 9)) { case 0: n = 30; break; case 1: n = 155 + vf_in8(0, 4); break; case 2: n = 25 + 513 + 512 + vf_in8(0, 1); break; case 3: n = 19 + 128 + vf_in8(0, 1); break; default: break; }
	char *b = vf_newbuf(n); rrr_length target = 777;
	static const uint16_t types[] = { 1, 2, 4, 6, 8, 16, 2, 6, 16, 8 };
	if (n >= 18) {
		if (vf_in8(0, 15)) { uint32_t z = htobe32(n); memcpy(b + 4, &z, 4); }
		if (vf_in8(0, 15)) { uint16_t z = htobe16(types[vf_in8(0, 9)]); memcpy(b + 8, &z, 2); }
		uint16_t t = be16(b + 8);
		if (t == 2 && n >= 30) {
			if (vf_in8(0, 7)) b[26] = (char) (vf_in8(1, 5) | (vf_bool() ? 1 : 11) << 4);
			if (vf_in8(0, 7)) { uint16_t z = htobe16((uint16_t) (n - 30 - vf_in8(0, 3) % (n - 29 > 0 ? n - 29 : 1))); if (vf_bool()) z = htobe16((uint16_t) vf_in16(0, (uint16_t) (n - 29))); memcpy(b + 28, &z, 2); }
			for (uint32_t i = 30; i < n; i++) if (b[i] & 128 && b[i] != (char) 0xff) b[i] = 'x';
		}
		if (t == 16 && n >= 156) {
			uint16_t z = vf_in16(0, (uint16_t) (n - 154)); uint16_t y = htobe16(z); memcpy(b + 153, &y, 2);
			if (vf_in8(0, 7)) b[n - 1] = 0;
			if (vf_in8(0, 7) && z > 0 && z + 154u < n) b[z + 154] = 0;
		}
		if (t == 6 && n >= 25) {
			static const uint8_t tt[] = { RRR_STATS_MESSAGE_TYPE_KEEPALIVE, RRR_STATS_MESSAGE_TYPE_TEXT, RRR_STATS_MESSAGE_TYPE_BASE10_TEXT, RRR_STATS_MESSAGE_TYPE_DOUBLE_TEXT };
			if (vf_in8(0, 7)) b[18] = (char) tt[vf_in8(0, 3)];
			if (vf_in8(0, 7)) { b[19] = b[20] = b[21] = 0; b[22] &= 15; }
			uint16_t z = vf_bool() ? 513 + vf_in8(0, 1) : vf_in16(0, (uint16_t) (n - 24)); uint16_t y = htobe16(z); memcpy(b + 23, &y, 2);
			if (vf_in8(0, 7) && z > 0 && z + 24u < n) b[z + 24] = 0;
		}
		if (vf_in8(0, 15)) { uint32_t z = htobe32(rrr_crc32buf(b + 18, n - 18)); memcpy(b + 14, &z, 4); }
		if (vf_in8(0, 15)) { uint32_t z = htobe32(rrr_crc32buf(b + 4, 14)); memcpy(b, &z, 4); }
	}
	int r = rrr_msg_get_target_size_and_check_checksum(&target, (struct rrr_msg *) b, n);
	if (n < 18) { ENSURES("incomplete", r == RRR_READ_INCOMPLETE); return; }
	int good = rrr_crc32buf(b + 4, 14) == be32(b) && be32(b + 4) >= 18;
	ENSURES("header checksum and size", r == (good ? RRR_READ_OK : RRR_READ_SOFT_ERROR) && (!good || target == be32(b + 4)));
	if (r != 0) return;
	char *k = vf_new(n); memcpy(k, b, n);
	int crc_ok = rrr_crc32buf(b + 18, n - 18) == be32(b + 14);
	int want = 0;
	if (be32(b + 4) == n && spec_type_ok(be16(b + 8)) && crc_ok) {
		want = spec_frame(b, n, 0, -1);
		if (want == 1 && rrr_utf8_validate(b + 30, be16(b + 28)) != 0) want = 0;
	}
	g_cb = 0; g_cb_ret = vf_in8(0, 3);
	struct rrr_msg *m = (struct rrr_msg *) b;
	r = rrr_msg_to_host_and_verify_with_callback(&m, n, cb_msg, cb_addr, cb_log, cb_ctrl, cb_stats, &g_cb, NULL);
	ENSURES("delivered once to the callback of its type exactly when well formed", g_cb == (want << 8 | want));
	ENSURES("refused softly otherwise", want ? r == g_cb_ret : r == RRR_READ_SOFT_ERROR);
	if (want == 1) {
		struct rrr_msg_msg *x = (struct rrr_msg_msg *) m;
		ENSURES("message", x->timestamp == be64(k + 18) && x->topic_length == be16(k + 28) && MSG_DATA_LENGTH(x) == n - 30 - x->topic_length && !memcmp(b + 30, k + 30, n - 30) && x->type_and_class == (uint8_t) k[26]);
		char *t; uint16_t l;
		ENSURES("topic", rrr_msg_msg_topic_and_length_get(&t, &l, x) == 0 && l == x->topic_length && !memcmp(t, k + 30, l) && t[l] == 0);
		if (strlen(t) == l) ENSURES("topic equality", rrr_msg_msg_topic_equals(x, t));
		t[0] ^= 1; if (l && strlen(t) == l) ENSURES("topic inequality", !rrr_msg_msg_topic_equals(x, t));
		free(t);
	}
	if (want == 16) ENSURES("stats", g_stats_copy.data_size == n - 25 - be16(k + 23) && !memcmp(g_stats_copy.path, k + 25, be16(k + 23)) && !memcmp(g_stats_copy.data, k + 25 + be16(k + 23), g_stats_copy.data_size) && g_stats_copy.timestamp == be32(k + 10) && g_stats_copy.flags == be32(k + 19));
	if (want == 4) {
		struct rrr_msg_log *x = (struct rrr_msg_log *) m; char *p, *t;
		ENSURES("log", rrr_msg_msg_log_to_str(&p, &t, x) == 0 && !memcmp(p, k + 155, be16(k + 153)) && !memcmp(t, k + 155 + be16(k + 153), n - 155 - be16(k + 153)) && x->line == be32(k + 146));
		free(p); free(t);
	}
#endif
}
/* the whole way: built, packed, received */
void b_roundtrip(void) {
#ifdef VF_NATIVE
	int kind = vf_in8(0, 4); uint16_t tl = vf_in8(0, 20); uint32_t dl = vf_in8(0, 60);
	char *topic = vf_newbuf(tl), *data = vf_newbuf(dl); int bad = 0;
	for (int i = 0; i < tl; i++) if (topic[i] & 128) topic[i] = 'z';
	char *s1 = vf_newbuf(tl + 1u), *s2 = vf_newbuf(dl + 1u); s1[tl] = 0; s2[dl] = 0;
	struct rrr_msg *m = NULL; struct rrr_msg_stats st; struct rrr_msg_stats_packed pk; rrr_length n = 0; uint32_t value = vf_u32();
	struct rrr_msg ctrl; uint64_t stamp = vf_u64(); uint8_t ty = vf_in8(1, 5), cl = vf_bool() ? 1 : 11; struct rrr_msg_addr ad; void *del = NULL; uint16_t cflags = 0;
	if (kind == 0) {
		struct rrr_msg_msg *x = NULL;
		if (rrr_msg_msg_new_with_data(&x, ty, cl, stamp, topic, tl, data, dl)) return;
		del = m = (struct rrr_msg *) x; n = m->msg_size; value = m->msg_value;
		ENSURES("size", n == 30u + tl + dl);
		rrr_msg_msg_prepare_for_network(x);
	} else if (kind == 1) {
		struct rrr_msg_log *x = NULL;
		if (rrr_msg_msg_log_new(&x, "file.c", (int) (value & 0x7fffffff), ty, cl, value, s1, s2)) return;
		del = m = (struct rrr_msg *) x; n = m->msg_size;
		rrr_msg_msg_log_prepare_for_network(x);
	} else if (kind == 2) {
		if (rrr_msg_stats_init(&st, RRR_STATS_MESSAGE_TYPE_TEXT, vf_in8(0, 15), s1, data, dl)) return;
		rrr_msg_stats_pack_and_flip(&pk, &n, &st);
		rrr_msg_populate_head((struct rrr_msg *) &pk, RRR_MSG_TYPE_STATS, n, value);
		m = (struct rrr_msg *) &pk;
	} else if (kind == 3) {
		cflags = (uint16_t) (vf_u16() & RRR_MSG_CTRL_F_ALL & ~1);
		rrr_msg_populate_control_msg(&ctrl, cflags, value); m = &ctrl; n = sizeof(ctrl);
	} else {
		uint8_t al = vf_in8(0, 128); rrr_msg_addr_init(&ad); rrr_msg_addr_init_head(&ad, al);
		for (int i = 0; i < al; i++) ad.addr[i] = (char) vf_u8();
		ad.protocol = ty; m = (struct rrr_msg *) &ad; n = m->msg_size; value = 0;
	}
	rrr_msg_checksum_and_to_network_endian(m);
	char *b = vf_new(n); memcpy(b, m, n);
	if (vf_bool()) { uint32_t k = vf_in16(0, 1000) % n; b[k] ^= (char) (1 << vf_in8(0, 7)); bad = 1; }
	rrr_length target = 0; g_cb = 0; g_cb_ret = 0; struct rrr_msg *x = (struct rrr_msg *) b;
	int r = rrr_msg_get_target_size_and_check_checksum(&target, x, n);
	if (r == 0) { ENSURES("size", bad || target == n); r = rrr_msg_to_host_and_verify_with_callback(&x, target == n ? n : n, cb_msg, cb_addr, cb_log, cb_ctrl, cb_stats, &g_cb, NULL); }
	static const int cbs[] = { 1, 4, 16, 8, 2 };
	if (bad) ENSURES("a frame with a flipped bit is never accepted", g_cb == 0 && r != 0);
	else {
		ENSURES("accepted", r == 0 && g_cb == (cbs[kind] << 8 | cbs[kind]) && x->msg_value == value);
		if (kind == 0) { struct rrr_msg_msg *y = (struct rrr_msg_msg *) x; ENSURES("same message", y->timestamp == stamp && MSG_TYPE(y) == ty && MSG_CLASS(y) == cl && MSG_TOPIC_LENGTH(y) == tl && MSG_DATA_LENGTH(y) == dl && !memcmp(MSG_TOPIC_PTR(y), topic, tl) && !memcmp(MSG_DATA_PTR(y), data, dl)); }
		if (kind == 1) { struct rrr_msg_log *y = (struct rrr_msg_log *) x; ENSURES("same log message", !strcmp(y->prefix_and_message, s1) && !strcmp(RRR_MSG_LOG_MSG_POS(y), s2) && y->line == (value & 0x7fffffff) && !strcmp(y->file, "file.c") && y->loglevel_translated == ty && y->loglevel_orig == cl); }
		if (kind == 2) ENSURES("same statistics", !strcmp(g_stats_copy.path, s1) && g_stats_copy.data_size == dl && !memcmp(g_stats_copy.data, data, dl) && g_stats_copy.flags == st.flags && g_stats_copy.timestamp == value);
		if (kind == 3) ENSURES("same control message", x->msg_type == (cflags | 1));
		if (kind == 4) ENSURES("same address", !memcmp((char *) x + 18, (char *) &ad + 18, n - 18));
	}
	if (del) free(del);
#endif
}
