//@ property C12
//@ proof p_create_vint unwind=6 funcs=__rrr_mqtt_connection_create_variable_int
//@ bounded b_create_vint unwind=6 bound=6
#include "vf.h"
#include "rrr_types.h"
#include "mqtt/mqtt_connection.c"

void p_create_vint(void) {
	uint8_t t[4]; rrr_length n = 0;
	uint64_t v = vf_u64() >> vf_in8(0, 63);
	int r = __rrr_mqtt_connection_create_variable_int(t, &n, v);
	ENSURES("values of more than 28 bits are refused", (r == 0) == (v <= 0xfffffff));
	if (r == 0) {
		ENSURES("remaining length: the field is as short as possible", n == (v < 0x80 ? 1 : v < 0x4000 ? 2 : v < 0x200000 ? 3 : 4));
		uint64_t d = 0; int ok = 1;
		for (unsigned i = 0; i < 4; i++) if (i < n) { d |= (uint64_t) (t[i] & 127) << (7 * i); if ((t[i] >= 128) != (i + 1 < n)) ok = 0; }
		ENSURES("remaining length: the field decodes to the value", ok && d == v);
	}
	VF_REACH("create vint end");
}
void b_create_vint(void) { p_create_vint(); }
