/* libFuzzer / replay entry: runs the harness VF_ENTRY on a byte string */
#include <setjmp.h>
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
const uint8_t *vf_data; size_t vf_data_n, vf_data_pos;
jmp_buf vf_jmp;
char *vf_allocs[4096]; unsigned vf_allocs_n;
void VF_ENTRY(void);
int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
	vf_data = d; vf_data_n = n; vf_data_pos = 0; vf_allocs_n = 0;
	if (setjmp(vf_jmp) == 0) VF_ENTRY();
	for (unsigned i = 0; i < vf_allocs_n; i++) free(vf_allocs[i]);
	return 0;
}
