//@ property C17
//@ proof p_encode unwind=2 funcs=rrr_base64_encode native=0 solver=cadical timeout=600 cost=150
//@ proof p_encode_url unwind=2 funcs=rrr_base64url_encode native=0 solver=cadical timeout=600 cost=150
//@ proof p_announce unwind=2 native=0 solver=cadical timeout=300 defs=-DANNOUNCE
//@ proof p_announce_url unwind=2 native=0 solver=cadical timeout=300 defs=-DANNOUNCE
//@ proof p_roundtrip unwind=4
//@ proof p_size unwind=2 solver=cadical timeout=200
//@ proof p_decode unwind=66 funcs=rrr_base64_decode native=0 timeout=400 cost=100
//@ proof p_decode_url unwind=66 funcs=rrr_base64url_decode native=0 timeout=400 cost=100
//@ proof p_table unwind=2 funcs=base64_table,base64url_table
//@ proof p_hex unwind=2 funcs=rrr_hex_bin_to_hex native=0
//@ bounded b_codecs unwind=30 bound=12 fbound=255 nobmc=1 maxlen=600 always=1
//@ assume snprintf("%02x") writes the two lowercase hex digits and a NUL
#include "vf.h"
#include "rrr_types.h"

/* specification: the alphabets and a decoder which takes one character at a time */
static int alpha(unsigned char c, int url) {
	if (c >= 'A' && c <= 'Z') return c - 'A';
	if (c >= 'a' && c <= 'z') return c - 'a' + 26;
	if (c >= '0' && c <= '9') return c - '0' + 52;
	if (c == (url ? '-' : '+')) return 62;
	if (c == (url ? '_' : '/')) return 63;
	return -1;
}
static unsigned char letter(unsigned v, int url) {
	return (unsigned char) (v < 26 ? 'A' + v : v < 52 ? 'a' + v - 26 : v < 62 ? '0' + v - 52 : v == 62 ? (url ? '-' : '+') : (url ? '_' : '/'));
}
struct rx { int url; unsigned n, pad; uint8_t b[4]; uint64_t out, w; uint8_t byte; int stop, bad; };
static void rx_out(struct rx *x, unsigned b) { if (x->out == x->w) x->byte = (uint8_t) b; x->out++; }
static int rx_valid(unsigned char c, int url) { return alpha(c, url) >= 0 || (!url && c == '='); }
static void rx_step(struct rx *x, unsigned char c) {
	if (x->stop || !rx_valid(c, x->url)) return;
	x->b[x->n++] = (uint8_t) (c == '=' ? 0 : alpha(c, x->url));
	if (!x->url && c == '=') x->pad++;
	if (x->n < 4) return;
	if (x->pad > 2) x->bad = 1;
	else {
		rx_out(x, (unsigned) x->b[0] << 2 | x->b[1] >> 4);
		if (x->pad < 2) rx_out(x, (unsigned) x->b[1] << 4 | x->b[2] >> 2);
		if (x->pad < 1) rx_out(x, (unsigned) x->b[2] << 6 | x->b[3]);
	}
	x->n = 0;
	if (x->pad) x->stop = 1;
}
static void rx_end(struct rx *x) {
	if (!x->url) return;
	if (x->n >= 2) rx_out(x, (unsigned) x->b[0] << 2 | x->b[1] >> 4);
	if (x->n >= 3) rx_out(x, (unsigned) x->b[1] << 4 | x->b[2] >> 2);
}
#ifdef VF_PROOF
static struct rx g; static uint64_t g_pos, g_o, g_i, g_k, g_nl; static unsigned g_line; static unsigned char g_ov; static int g_os;
static uint64_t g_j, g_rj, g_rj1, g_total, g_c2;
static char g_h0, g_h1; static uint64_t g_w; static const unsigned char *g_src;
/* the specified encoding, character by character: remembered at position g_o and given to the decoder */
static int g_rx;
static void put(unsigned char c) { if (g_pos == g_o) { g_ov = c; g_os = 1; } g_pos++; if (g_rx) rx_step(&g, c); }
static void enc3(const unsigned char *s) {
	unsigned v = (unsigned) s[0] << 16 | (unsigned) s[1] << 8 | s[2];
	put(letter(v >> 18, g.url)); put(letter(v >> 12 & 63, g.url)); put(letter(v >> 6 & 63, g.url)); put(letter(v & 63, g.url));
	g_k++; g_i += 3;
	if (!g.url) { g_line += 4; if (g_line == 72) { put('\n'); g_line = 0; g_nl++; } }
}
static void enc_tail(const unsigned char *s, uint64_t n) {
	if (n > 0) {
		unsigned v = (unsigned) s[0] << 16 | (n > 1 ? (unsigned) s[1] << 8 : 0);
		put(letter(v >> 18, g.url)); put(letter(v >> 12 & 63, g.url));
		if (n > 1) put(letter(v >> 6 & 63, g.url)); else if (!g.url) put('=');
		if (!g.url) { put('='); g_line += 4; }
	}
	if (g_line) put('\n');
}
/* The size of the buffer for an encoding is exactly SIZE_OF. From there on the encoder is proved for a buffer of
 * any size which has room() for every number of groups and line feeds: SIZE_OF has, by the lemma in p_size. */
#include "allocator.h"
#define SIZE_OF(len) ((uint64_t) (len) * 4 / 3 + 4 + ((uint64_t) (len) * 4 / 3 + 4) / 72 + 1)
static uint64_t g_len, g_olen; static int g_enc;
static int room(uint64_t len, uint64_t olen, uint64_t k, uint64_t nl) { return 4 * k + nl + (len > 3 * k ? 4 : 0) + 2 <= olen; }
static void *vf_alloc(uint64_t n) {
	if (g_enc) {
#ifdef ANNOUNCE
		CALLEE_PRE("size of the buffer", n == SIZE_OF(g_len));
		VF_REACH("size checked");
		ASSUME(0);
#endif
		g_olen = nondet_u64(); ASSUME(g_olen <= 0x3ffffffffffffULL && room(g_len, g_olen, 0, 0));
		n = g_olen;
	}
	return rrr_allocate(n);
}
#define rrr_allocate(n) vf_alloc(n)
static int vf_snprintf2(char *d, size_t n, const char *fmt, unsigned v) {
	CALLEE_PRE("two lowercase hex digits", fmt[0] == '%' && fmt[1] == '0' && fmt[2] == '2' && fmt[3] == 'x' && fmt[4] == 0 && n >= 3 && v < 256);
	d[0] = "0123456789abcdef"[v >> 4]; d[1] = "0123456789abcdef"[v & 15]; d[2] = 0;
	return 2;
}
#define snprintf(d, n, f, v) vf_snprintf2(d, n, f, v)
#endif
#include "util/base64.c"
#include "util/hex.c"

VF_LOOP(rrr_base64_encode, 0,
	ptr(in, src); ptr(pos, out); mem(out, g_olen); var(line_len); var(g); var(g_pos); var(g_i); var(g_k); var(g_nl); var(g_line); var(g_os); var(g_ov);
	inv(read_pos, VF_SAME(in, src) && VF_OFF(in) == g_i && g_i == 3 * g_k && g_k <= g_i && g_i <= len);
	inv(line, line_len == (int) g_line && g_line < 72 && g_line == 4 * (unsigned) (g_k - 18 * g_nl) && g_nl <= g_k && g_k >= 18 * g_nl && g_k - 18 * g_nl < 18);
	inv(write_pos, VF_SAME(pos, out) && VF_OFF(pos) == g_pos && g_pos == 4 * g_k + g_nl);
	inv(bytes_written, (g_os == (g_o < g_pos) && (!g_os || (g_o < g_olen && out[g_o] == g_ov))));
	inv(alphabet, g.url == 0);
	at(ASSUME(room(len, g_olen, g_k, g_nl)); if (len - g_i >= 3) enc3(src + g_i)))
VF_LOOP(rrr_base64url_encode, 0,
	ptr(in, src); ptr(pos, out); mem(out, g_olen); var(g); var(g_pos); var(g_i); var(g_k); var(g_os); var(g_ov);
	inv(read_pos, VF_SAME(in, src) && VF_OFF(in) == g_i && g_i == 3 * g_k && g_k <= g_i && g_i <= len);
	inv(write_pos, VF_SAME(pos, out) && VF_OFF(pos) == g_pos && g_pos == 4 * g_k);
	inv(bytes_written, (g_os == (g_o < g_pos) && (!g_os || (g_o < g_olen && out[g_o] == g_ov))));
	inv(alphabet, g.url == 1);
	at(ASSUME(room(len, g_olen, g_k, g_nl)); if (len - g_i >= 3) enc3(src + g_i)))

/* counting: rank(i) = characters of the alphabet before position i, for an arbitrary position g_j */
VF_LOOP(rrr_base64_decode, 1,
	var(i); var(count); var(g_rj); var(g_rj1); var(g_total);
	inv(position, i <= len && count <= i);
	inv(rank, i <= g_j || (g_rj1 == g_rj + rx_valid(src[g_j], 0) && g_rj1 <= count && g_rj <= g_j && (g_j != 0 || g_rj == 0)));
	at(if (i == g_j) { g_rj = count; if (i < len) g_rj1 = count + rx_valid(src[i], 0); } if (i == len) g_total = count);
	dec(len - i))
VF_LOOP(rrr_base64_decode, 2,
	var(i); var(count); var(pad); var(tmp); mem(block, 4); ptr(pos, out); mem(out, olen); var(g); var(g_i); var(g_c2);
	pre(g_c2 = 0);
	inv(position, i <= len && g_i == i && count < 4 && count == g.n && pad == (int) g.pad && pad <= (int) count && !g.stop && !g.bad && !g.url);
	inv(rank, (i != g_j || g_c2 == g_rj) && (i != g_j + 1 || g_c2 == g_rj1));
	inv(block, (count < 1 || block[0] == g.b[0]) && (count < 2 || block[1] == g.b[1]) && (count < 3 || block[2] == g.b[2]) && g.b[0] < 64 && g.b[1] < 64 && g.b[2] < 64);
	inv(write_pos, VF_SAME(pos, out) && VF_OFF(pos) == g.out && g.out == 3 * (g_c2 / 4) && count == g_c2 % 4);
	inv(bytes, (i != g_j && i != g_j + 1) || g.w >= g.out || out[g.w] == g.byte);
	at(ASSUME(i == g_j); if (i < len) { g_c2 += (uint64_t) rx_valid(src[i], 0); rx_step(&g, src[i]); g_i++; });
	dec(len - i))
VF_LOOP(rrr_base64url_decode, 1,
	var(i); var(count); var(g_rj); var(g_rj1); var(g_total);
	inv(position, i <= len && count <= i);
	inv(rank, i <= g_j || (g_rj1 == g_rj + rx_valid(src[g_j], 1) && g_rj1 <= count && g_rj <= g_j && (g_j != 0 || g_rj == 0)));
	at(if (i == g_j) { g_rj = count; if (i < len) g_rj1 = count + rx_valid(src[i], 1); } if (i == len) g_total = count);
	dec(len - i))
VF_LOOP(rrr_base64url_decode, 2,
	var(i); var(count); var(tmp); mem(block, 4); ptr(pos, out); mem(out, olen); var(g); var(g_i); var(g_c2);
	pre(g_c2 = 0);
	inv(position, i <= len && g_i == i && count < 4 && count == g.n && g.pad == 0 && !g.stop && !g.bad && g.url);
	inv(rank, (i != g_j || g_c2 == g_rj) && (i != g_j + 1 || g_c2 == g_rj1));
	inv(block, (count < 1 || block[0] == g.b[0]) && (count < 2 || block[1] == g.b[1]) && (count < 3 || block[2] == g.b[2]) && g.b[0] < 64 && g.b[1] < 64 && g.b[2] < 64);
	inv(write_pos, VF_SAME(pos, out) && VF_OFF(pos) == g.out && g.out == 3 * (g_c2 / 4) && count == g_c2 % 4);
	inv(bytes, (i != g_j && i != g_j + 1) || g.w >= g.out || out[g.w] == g.byte);
	at(ASSUME(i == g_j); if (i < len) { g_c2 += (uint64_t) rx_valid(src[i], 1); rx_step(&g, src[i]); g_i++; });
	dec(len - i))
VF_LOOP(rrr_hex_bin_to_hex, 0,
	var(i); ptr(wpos, result); mem(result, output_size); var(g_h0); var(g_h1);
	inv(position, i <= source_size && VF_SAME(wpos, result) && VF_OFF(wpos) == 2 * (uint64_t) i);
	inv(digits, g_w >= i || (result[2 * g_w] == "0123456789abcdef"[((const unsigned char *) source)[g_w] >> 4] && result[2 * g_w + 1] == "0123456789abcdef"[((const unsigned char *) source)[g_w] & 15]));
	dec(source_size - i))

#ifdef VF_PROOF
static void start(int url) {
	memset(&g, 0, sizeof(g)); g.url = url; g.w = nondet_u64(); g_pos = g_i = g_k = g_nl = 0; g_line = 0; g_os = 0; g_o = nondet_u64();
}
#ifndef LENMAX
#define LENMAX 0xffffffffffffULL
#endif
#endif
void p_size(void) {
#ifdef VF_PROOF
	uint64_t len = vf_in64(0, 0xffffffffffffULL), k = nondet_u64(), nl = nondet_u64();
	REQUIRES(k <= len && 3 * k <= len && nl <= k && 18 * nl <= k);
	uint64_t x = len * 4 / 3, y = (x + 4) / 72;
	LEMMA("quotients", 3 * x <= 4 * len && 4 * len < 3 * x + 3 && 72 * y <= x + 4 && x + 4 < 72 * y + 72);
	x = nondet_u64(); y = nondet_u64(); /* any numbers with these properties */
	ASSUME(x <= 2 * len && y <= x + 4 && 3 * x <= 4 * len && 4 * len < 3 * x + 3 && 72 * y <= x + 4 && x + 4 < 72 * y + 72);
	LEMMA("groups", x >= 4 * k + (len > 3 * k));
	ASSUME(x >= 4 * k + (len > 3 * k));
	LEMMA("lines", y >= nl);
	ASSUME(y >= nl);
	LEMMA("the announced size has room", room(len, x + 4 + y + 1, k, nl));
	VF_REACH("size end");
#endif
}
/* Decoding what the encoder writes gives the bytes back, by induction over the groups: each full group leaves the
 * decoder between two groups and makes it put out exactly the three bytes, and the last group the remaining ones. */
void p_roundtrip(void) {
#ifdef VF_PROOF
	unsigned char s[3]; uint64_t n = vf_in64(0, 3); int url = nondet_bool();
	start(url); g_rx = 1; s[0] = nondet_u8(); s[1] = nondet_u8(); s[2] = nondet_u8();
	uint64_t o = nondet_u64(); uint8_t old = nondet_u8();
	ASSUME(o <= 0x3ffffffffffffffULL);
	g.out = o; g.byte = old; g_line = nondet_u32(); ASSUME(g_line < 72 && g_line % 4 == 0);
	if (n == 3) {
		enc3(s);
		LEMMA("between groups", g.n == 0 && g.pad == 0 && !g.stop && !g.bad);
		VF_REACH("group");
	}
	else {
		enc_tail(s, n); rx_end(&g);
		LEMMA("complete", !g.bad && (url || g.n == 0));
		VF_REACH("tail");
	}
	LEMMA("the bytes of the group", g.out == o + n && g.byte == (g.w >= o && g.w - o < n ? s[g.w - o] : old));
#endif
}
static void encode_proof(int url) {
#ifdef VF_PROOF
	uint64_t n = vf_in64(0, LENMAX);
	unsigned char *b = (unsigned char *) vf_newbuf(n);
	start(url); g_enc = 1; g_len = n;
	rrr_biglength ol = nondet_u64(); int want = nondet_bool();
	unsigned char *r = url ? rrr_base64url_encode(b, n, want ? &ol : NULL) : rrr_base64_encode(b, n, want ? &ol : NULL);
	if (r != NULL) {
		ENSURES("all full groups encoded", n - g_i < 3 && g_i <= n);
		enc_tail(b + g_i, n - g_i);
		ENSURES("exact size, NUL terminated", (!want || ol == g_pos) && r[g_pos] == 0);
		ENSURES("exactly the specified characters", g_o >= g_pos || r[g_o] == g_ov);
#ifndef ANNOUNCE
		VF_REACH("encode end");
#endif
	}
#endif
}
void p_encode(void) { encode_proof(0); }
void p_encode_url(void) { encode_proof(1); }
void p_announce(void) { encode_proof(0); }
void p_announce_url(void) { encode_proof(1); }
static void decode_proof(int url) {
#ifdef VF_PROOF
	uint64_t n = VF_LEN64(0, VF_BOUND);
	unsigned char *b = (unsigned char *) vf_newbuf(n);
	start(url); g_enc = 0; g_j = nondet_u64(); REQUIRES(g_j <= n); g_rj = g_rj1 = 0; g_total = 0;
	rrr_biglength ol = nondet_u64();
	unsigned char *r = url ? rrr_base64url_decode(b, n, &ol) : rrr_base64_decode(b, n, &ol);
	if (r != NULL) {
		ENSURES("whole groups only", g_total != 0 && (url ? g_total % 4 != 1 : g_total % 4 == 0));
		ENSURES("all characters used, up to the first padded group", g_i == n || g.stop);
		ENSURES("too much padding is refused", !g.bad);
		rx_end(&g);
		ENSURES("exactly the decoded bytes", ol == g.out && (g.w >= ol || r[g.w] == g.byte));
		VF_REACH("decode end");
	}
#endif
}
void p_decode(void) { decode_proof(0); }
void p_decode_url(void) { decode_proof(1); }
void p_table(void) {
	uint8_t v = vf_in8(0, 63), c = vf_u8();
	ENSURES("alphabets", base64_table[v] == letter(v, 0) && base64url_table[v] == letter(v, 1));
	LEMMA("letters and values correspond", alpha(letter(v, 0), 0) == v && alpha(letter(v, 1), 1) == v && (alpha(c, 0) < 0 || letter((unsigned) alpha(c, 0), 0) == c) && (alpha(c, 1) < 0 || letter((unsigned) alpha(c, 1), 1) == c));
	VF_REACH("table end");
}
void p_hex(void) {
#ifdef VF_PROOF
	rrr_length n = nondet_u32();
	char *b = vf_newbuf(n), *t = NULL; rrr_biglength tl = 4711;
	g_w = nondet_u32(); g_enc = 0;
	int r = rrr_hex_bin_to_hex(&t, &tl, b, n);
	if (r == 0) {
		ENSURES("exact size, NUL terminated", tl == 2 * (uint64_t) n && t[tl] == 0);
		ENSURES("two digits of each byte", g_w >= n || (t[2 * g_w] == "0123456789abcdef"[(unsigned char) b[g_w] >> 4] && t[2 * g_w + 1] == "0123456789abcdef"[(unsigned char) b[g_w] & 15]));
		VF_REACH("hex end");
	}
	else ENSURES("failure gives nothing", t == NULL && tl == 0);
#endif
}

void b_codecs(void) {
#ifndef VF_PROOF
	unsigned n = vf_in8(0, VF_BOUND); int url = vf_bool();
	unsigned char *b = (unsigned char *) vf_newbuf(n);
	rrr_biglength el = 4711, dl = 4711;
	/* bit string reference */
	unsigned char *want = malloc(2 * n + 16); unsigned m = 0, line = 0;
	for (unsigned i = 0; i < n; i += 3) {
		for (unsigned k = 0; k < 4; k++) {
			unsigned v = 0, have = 0;
			for (unsigned bit = 0; bit < 6; bit++) { unsigned p = 8 * i + 6 * k + bit; v <<= 1; if (p < 8 * n) { v |= b[p / 8] >> (7 - p % 8) & 1; have = 1; } }
			if (have) want[m++] = letter(v, url); else if (!url) want[m++] = '=';
		}
		line += 4; if (!url && line == 72) { want[m++] = '\n'; line = 0; }
	}
	if (!url && line) want[m++] = '\n';
	unsigned char *e = url ? rrr_base64url_encode(b, n, &el) : rrr_base64_encode(b, n, &el);
	ENSURES("encoded", e != NULL && el == m && memcmp(e, want, m) == 0 && e[m] == 0);
	/* strangers in between are skipped */
	unsigned char *x = malloc(m + 4); unsigned k = vf_in16(0, (uint16_t) m), xn = m;
	memcpy(x, e, m);
	if (vf_bool() && m) { memcpy(x, e, k); x[k] = vf_bool() ? '\n' : '.'; memcpy(x + k + 1, e + k, m - k); xn = m + 1; }
	unsigned char *xx = malloc(xn ? xn : 1); memcpy(xx, x, xn);
	unsigned char *d = url ? rrr_base64url_decode(xx, xn, &dl) : rrr_base64_decode(xx, xn, &dl);
	ENSURES("decoding gives the bytes back", n == 0 ? d == NULL : d != NULL && dl == n && memcmp(d, b, n) == 0);
	free(d); free(xx);
	/* arbitrary text */
	unsigned char *a = malloc(n ? n : 1); for (unsigned i = 0; i < n; i++) { uint8_t s = b[i] & 15; a[i] = s == 0 ? '=' : s == 1 ? b[i] : letter(b[i] >> 2, url); }
	if (vf_bool() && n >= 8) { n -= n % 4; a[n - 1] = '='; if (vf_bool()) a[n - 2] = '='; }
	struct rx g; memset(&g, 0, sizeof(g)); g.url = url; unsigned tot = 0;
	for (unsigned i = 0; i < n; i++) tot += rx_valid(a[i], url);
	int ok = tot && (url ? tot % 4 != 1 : tot % 4 == 0);
	unsigned char *aa = malloc(n ? n : 1); memcpy(aa, a, n); dl = 4711;
	d = url ? rrr_base64url_decode(aa, n, &dl) : rrr_base64_decode(aa, n, &dl);
	g.w = vf_in8(0, 255);
	for (unsigned i = 0; i < n; i++) rx_step(&g, a[i]);
	rx_end(&g);
	ENSURES("refused exactly when not decodable", (d != NULL) == (ok && !g.bad));
	if (d) ENSURES("decoded", dl == g.out && (g.w >= dl || d[g.w] == g.byte));
	free(d); free(aa); free(a); free(x); free(e);
	char *h; rrr_biglength hl;
	ENSURES("hex", rrr_hex_bin_to_hex(&h, &hl, b, n) == 0 && hl == 2 * n && strlen(h) == hl);
	for (unsigned i = 0; i < n; i++) { char t[3]; sprintf(t, "%02x", b[i]); ENSURES("hex digits", memcmp(h + 2 * i, t, 2) == 0); }
	free(h); free(want);
#endif
}
