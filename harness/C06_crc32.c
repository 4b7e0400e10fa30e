//@ property C06
//@ proof p_crc32buf unwind=9 funcs=rrr_crc32buf native=0
//@ proof p_table unwind=9 funcs=crc_32_tab native=0
//@ proof p_crc32cmp unwind=2 funcs=rrr_crc32cmp native=0
//@ bounded b_crc32 unwind=9 bound=1 fbound=40
//@ assume none beyond the trusted base: rrr_crc32buf is proved for every buffer of every length by loop invariant over the recursive definition of the CRC register
#include "vf.h"
#include "rrr_types.h"

/* specification: one byte into the CRC register, bit by bit (reflected, 0xEDB88320) */
static uint32_t spec_byte(uint32_t crc, uint8_t b) {
	crc ^= b;
	for (int i = 0; i < 8; i++) crc = (crc >> 1) ^ ((crc & 1) ? 0xEDB88320U : 0);
	return crc;
}
#ifdef VF_PROOF
/* ghost: register after the first i bytes; defined by g_crc(0)=~0, g_crc(i+1)=spec_byte(g_crc(i), buf[i]) */
static uint32_t g_crc; static uint64_t g_i;
static uint32_t g_ret; static const char *g_buf; static uint64_t g_len; static int g_called;
static uint32_t rrr_crc32buf__stub(const char *buf, rrr_biglength len) {
	CALLEE_PRE("crc32buf gets the given bytes", buf == g_buf && len == g_len);
	g_called = 1;
	return g_ret;
}
#define CRC32BUF rrr_crc32buf__real
#else
#define CRC32BUF rrr_crc32buf
#endif
VF_OPAQUE(rrr_crc32buf)

#include "util/crc32.c"

VF_LOOP(rrr_crc32buf, 0,
	var(crc32); var(i); var(g_crc); var(g_i);
	inv(register, g_i == i && i <= len && crc32 == g_crc);
	at(if (g_i < len) { g_crc = spec_byte(g_crc, (uint8_t) buf[g_i]); g_i++; });
	dec(len - i))

void p_crc32buf(void) {
#ifdef VF_PROOF
	rrr_biglength n = VF_LEN64(0, VF_BOUND);
	char *b = vf_newbuf(n);
	g_crc = 0xFFFFFFFFU; g_i = 0;
	uint32_t r = CRC32BUF(b, n);
	ENSURES("the result is the complement of the register after exactly all bytes", g_i == n && r == ~g_crc);
	VF_REACH("crc32buf end");
#endif
}
void p_table(void) {
#ifdef VF_PROOF
	uint32_t crc = nondet_u32(); uint8_t c = nondet_u8();
	LEMMA("table step equals eight bit steps for every register and byte", (uint32_t) UPDC32((char) c, crc) == spec_byte(crc, c));
	VF_REACH("table end");
#endif
}
void p_crc32cmp(void) {
#ifdef VF_PROOF
	g_len = VF_LEN64(0, VF_BOUND); g_buf = vf_newbuf(g_len); g_ret = nondet_u32(); g_called = 0;
	uint32_t c = nondet_u32();
	uint32_t r = rrr_crc32cmp(g_buf, g_len, c);
	ENSURES("accepted iff the checksum is the CRC of exactly these bytes", g_called && (r == 0) == (c == g_ret));
	VF_REACH("crc32cmp end");
#endif
}
void b_crc32(void) {
	rrr_biglength n = VF_LEN64(0, VF_BOUND);
	char *b = vf_newbuf(n);
	uint32_t c = 0xFFFFFFFFU;
	for (rrr_biglength i = 0; i < n; i++) c = spec_byte(c, (uint8_t) b[i]);
	ENSURES("CRC32 of the bytes", rrr_crc32buf(b, n) == (uint32_t) ~c);
	uint32_t x = vf_u32(); if (vf_bool()) x = ~c;
	ENSURES("verification accepts exactly the CRC", (rrr_crc32cmp(b, n, x) == 0) == (x == (uint32_t) ~c));
	VF_REACH("b_crc32 end");
}
