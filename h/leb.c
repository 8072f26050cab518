/* LEB128: what is written decodes to the value, in as few bytes as possible,
 * and the length announced is the length written. */
#include "vf.h"
#define SINK_MAX 32
#include "sink.h"
#include "cc1/out/leb.c"

void harness(void)
{
	vf_u64 v = vf_in(), got = 0;
	int sig = vf_inb();
	unsigned len, n = 0, i, sh;
	unsigned char b[12];
	int state = 0; /* 0: a number is due, 1: a comma or the end */
	VF_INIT();
	sk_n = 0;
	len = leb128_out((FILE *)0, v, sig);
	vf_assert(len == leb128_length(v, sig), "the length computed is the length written");
	for(i = 0; i < 32 && i < sk_n; i++){
		if(sk[i].ch == ' ') continue;
		if(state == 0){
			vf_assert(sk[i].ch == 1, "a comma separated list of numbers");
			vf_assert(sk[i].num <= 0xff && n < 10, "each a byte, at most ten");
			vf_assume(n < 10);
			b[n++] = (unsigned char)sk[i].num;
			state = 1;
		}else{
			vf_assert(sk[i].ch == ',', "a comma separated list of numbers");
			state = 0;
		}
	}
	vf_assert(state == 1 && n == len, "as many bytes as announced");
	vf_assume(n >= 1 && n <= 10);
	for(i = 0, sh = 0; i < 10; i++, sh += 7)
		if(i < n){
			got |= (vf_u64)(b[i] & 0x7f) << sh;
			vf_assert(!!(b[i] & 0x80) == (i + 1 < n), "every byte but the last is marked as continued");
		}
	sh = n * 7;
	if(sig && sh < 64 && (b[n - 1] & 0x40)) got |= ~0ULL << sh;
	vf_assert(got == v, "decodes to the value");
	if(n == 10) vf_assert(sig ? (b[9] == 0 || b[9] == 0x7f) : b[9] == 1, "the tenth byte has no bits past the 64th");
	if(n > 1){
		if(sig) vf_assert(!(b[n-1] == 0 && !(b[n-2] & 0x40)) && !(b[n-1] == 0x7f && (b[n-2] & 0x40)), "as short as possible");
		else vf_assert(b[n-1] != 0, "as short as possible");
	}
	vf_cover(n == 10, "ten bytes"); vf_cover(n == 1, "one byte"); vf_cover(n == 5 && sig, "signed");
}
