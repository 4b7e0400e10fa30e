//@ property C01
//@ proof h_verify unwind=66 funcs=rrr_increment_verify,__rrr_increment_calculate_bit_requirement
//@ proof h_basic unwind=66 funcs=rrr_increment_basic
//@ proof h_mod_range unwind=66 funcs=rrr_increment_mod
//@ proof h_mod_residue unwind=66 funcs=rrr_increment_mod
//@ proof h_mod_next unwind=66 funcs=rrr_increment_mod
//@ proof h_prefix unwind=66 funcs=rrr_increment_apply_prefix,rrr_increment_strip_prefix,rrr_increment_verify_value_prefix,rrr_increment_max_to_prefix_mask
//@ proof h_bits_to_max unwind=66 funcs=rrr_increment_bits_to_max
//@ bounded h_verify unwind=66 bound=6
//@ bounded h_basic unwind=66 bound=6
//@ bounded h_mod_all unwind=66 bound=6
//@ bounded h_prefix unwind=66 bound=6
//@ bounded h_bits_to_max unwind=66 bound=6
//@ assume the unsigned remainder in rrr_increment_mod is treated by its mathematical contract (a = P + r, r < b, P multiple of b), not bit by bit
//@ assume none beyond the trusted base: the functions are called for every argument value; rrr_increment_mod/basic for every configuration that rrr_increment_verify accepts
#include "vf.h"
#ifdef VF_PROOF
#define MOD(a, b) vf_umod(a, b)
#define IS_MULTIPLE(x, b) vf_is_multiple(x, b)
#else
#define MOD(a, b) ((uint64_t)(a) % (uint64_t)(b))
#define IS_MULTIPLE(x, b) ((uint64_t)(x) % (uint64_t)(b) == 0)
#endif
#include "util/increment.c"

/* specification: number of bits needed for n (independent formulation) */
static unsigned spec_bits(uint64_t n) {
	unsigned r = 0;
	for (unsigned i = 0; i < 64; i++) if ((n >> i) & 1) r = i + 1;
	return r;
}

/* contract of rrr_increment_verify: accepts exactly the usable configurations */
static int spec_config_ok(uint64_t step, uint64_t min, uint64_t max, uint64_t pos, uint64_t prefix) {
	return step >= 1 && step <= 255 && max <= 0xffffffffULL && min <= max
	    && max - min + 1 >= step && pos < step
	    && spec_bits(prefix) + spec_bits(max) <= 64;
}

void h_verify(void) {
	uint64_t step = vf_u64(), min = vf_u64(), max = vf_u64(), pos = vf_u64(), prefix = vf_u64();
	int r = rrr_increment_verify(step, min, max, pos, prefix);
	ENSURES("verify accepts exactly the usable configurations", (r == 0) == (spec_config_ok(step, min, max, pos, prefix) != 0));
	ENSURES("verify returns 0 or 1", r == 0 || r == 1);
	VF_REACH("h_verify end");
}

void h_basic(void) {
	uint32_t value = vf_u32(), min = vf_u32(), max = vf_u32();
	uint32_t step = vf_u8();
	REQUIRES(spec_config_ok(step, min, max, 0, 0));
	uint32_t r = rrr_increment_basic(value, step, min, max);
	ENSURES("basic stays within [min,max]", r >= min && r <= max);
	uint64_t next = (uint64_t) value + step;
	ENSURES("basic is the exact next value, or min when that is out of range",
		next >= min && next <= max ? r == next : r == min);
	VF_REACH("h_basic end");
}

VF_MOD(rrr_increment_mod)

/* contract of rrr_increment_mod: for a usable configuration */
static void mod_common(int what) {
	uint32_t value = vf_u32(), min = vf_u32(), max = vf_u32();
	uint8_t mod = vf_u8(), pos = vf_u8();
	REQUIRES(spec_config_ok(mod, min, max, pos, 0));
	uint64_t residue = MOD(value, mod);
	uint32_t r = rrr_increment_mod(value, mod, min, max, pos);
	if (what & 1)
		ENSURES("mod stays within [min,max]", r >= min && r <= max);
	if (what & 2)
		ENSURES("mod gives exactly the configured residue class", r >= pos && IS_MULTIPLE((uint64_t) r - pos, mod));
	if (what & 4) {
		uint64_t next = (uint64_t) value + mod;
		if (residue == pos && next >= min && next <= max)
			ENSURES("mod steps to the next id of its class", r == next);
		if (residue == pos && next > max)
			ENSURES("mod wraps to the first id of its class", r >= min && r - min < mod);
		ENSURES("mod never hands out the same id twice in a row unless the class has one id",
			residue != pos || value < min || value > max || r != value || (next > max && value - min < mod));
	}
	VF_REACH("mod end");
}
void h_mod_range(void) { mod_common(1); }
void h_mod_residue(void) { mod_common(2); }
void h_mod_next(void) { mod_common(4); }
void h_mod_all(void) { mod_common(7); }

void h_prefix(void) {
	uint32_t value = vf_u32(), max = vf_u32();
	uint64_t prefix = vf_u64();
	unsigned bits = spec_bits(max);
	ENSURES("prefix mask covers exactly the bits above max",
		rrr_increment_max_to_prefix_mask(max) == (bits == 64 ? 0 : ~((((uint64_t)1) << bits) - 1)));
	REQUIRES(spec_bits(prefix) + bits <= 64);
	REQUIRES(value <= max);
	uint64_t id = rrr_increment_apply_prefix(value, max, prefix);
	ENSURES("prefixed id is prefix above value", id == (prefix << bits) + value);
	uint64_t p2 = 0;
	uint32_t v2 = rrr_increment_strip_prefix(&p2, id, max);
	ENSURES("strip undoes apply (value)", v2 == value);
	ENSURES("strip undoes apply (prefix)", p2 == prefix);
	ENSURES("an id carries its own prefix", rrr_increment_verify_value_prefix(id, max, prefix) == 0);
	uint64_t other = vf_u64(), anyid = vf_u64();
	REQUIRES(spec_bits(other) + bits <= 64);
	ENSURES("verify_value_prefix accepts an id iff its prefix is the configured one",
		(rrr_increment_verify_value_prefix(anyid, max, other) == 0) == ((anyid >> bits) == other));
	uint64_t p3 = 0;
	uint32_t v3 = rrr_increment_strip_prefix(&p3, anyid, max);
	ENSURES("strip splits any id without loss", (p3 << bits) + v3 == anyid && p3 == anyid >> bits);
	VF_REACH("h_prefix end");
}

void h_bits_to_max(void) {
	uint8_t bits = vf_in8(0, 64);
	uint64_t r = rrr_increment_bits_to_max(bits);
	ENSURES("bits_to_max(b) = 2^b - 1", bits == 64 ? r == UINT64_MAX : r == (((uint64_t)1) << bits) - 1);
	VF_REACH("h_bits_to_max end");
}
