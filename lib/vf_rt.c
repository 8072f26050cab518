/* Runtime of a harness: ghost state, and (native) the replay driver. */
#include "vf.h"

struct vf_ghost vf_g = { 0 };
int vf_never = 0;
#ifdef VF_CBMC
vf_u64 VF_IN[VF_NIN] = { 0 };
unsigned vf_nin = 0;
#endif

#ifdef VF_NATIVE
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <setjmp.h>

vf_u64 VF_IN[VF_NIN];
unsigned vf_nin;
int vf_random;
static unsigned vf_navail;
static vf_u64 rng;
static jmp_buf again;

static vf_u64 rnd(void)
{
	rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
	return rng;
}

static vf_u64 biased(void)
{
	static const vf_u64 k[] = {
		0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 32767, 32768, 65535,
		65536, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000ull,
		0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull,
		0xffffffff80000000ull, 0xffffffffffffff80ull, 0xffffffffffff8000ull
	};
	switch(rnd() % 4){
		case 0: return k[rnd() % (sizeof k / sizeof *k)];
		case 1: return rnd() >> (rnd() % 64);
		case 2: return (vf_u64)((vf_s64)rnd() >> (rnd() % 64));
		default: return rnd();
	}
}

vf_u64 vf_in(void)
{
	if(vf_random){
		if(vf_nin >= VF_NIN) vf_reject();
		return VF_IN[vf_nin++] = biased();
	}
	if(vf_nin >= vf_navail){
		vf_nin++;
		return 0;
	}
	return VF_IN[vf_nin++];
}

void vf_reject(void)
{
	if(vf_random)
		longjmp(again, 1);
	printf("REPLAY precondition does not hold for these inputs\n");
	exit(77);
}

static void dump(const char *how)
{
	unsigned i;
	printf("%s\nINPUTS", how);
	for(i = 0; i < vf_nin && i < VF_NIN; i++)
		printf(" %llu", VF_IN[i]);
	printf("\n");
	fflush(stdout);
}

void vf_violated(const char *what, const char *file, int line)
{
	char buf[512];
	snprintf(buf, sizeof buf, "REPLAY VIOLATED: %s (%s:%d)", what, file, line);
	dump(buf);
	_exit(1);
}

static void onsig(int s)
{
	char buf[128];
	snprintf(buf, sizeof buf, "REPLAY VIOLATED: the real code raised signal %d", s);
	dump(buf);
	_exit(1);
}

int main(int argc, char **argv)
{
	int i;
	static const int sigs[] = { SIGFPE, SIGSEGV, SIGABRT, SIGILL, SIGBUS };
	for(i = 0; i < 5; i++)
		signal(sigs[i], onsig);
	if(argc > 1 && !strcmp(argv[1], "--random")){
		/* reruns in this process: only harnesses that set up all their state each time */
		unsigned long n = strtoul(argv[2], 0, 0), k;
		volatile unsigned long done = 0;
		vf_random = 1;
		rng = strtoul(argv[3], 0, 0) * 0x9e3779b97f4a7c15ull + 88172645463325252ull;
		for(k = 0; k < n; k++){
			vf_nin = 0;
			memset(&vf_g, 0, sizeof vf_g);
			if(!setjmp(again)){
				harness();
				done++;
			}
		}
		printf("RANDOM %lu of %lu inputs met the precondition, none violated\n", done, n);
		return 0;
	}
	for(i = 1; i < argc && i <= VF_NIN; i++)
		VF_IN[i - 1] = strtoull(argv[i], 0, 0);
	vf_navail = argc - 1;
	harness();
	printf("REPLAY ok: the contract holds on these inputs\n");
	return 0;
}

/* a path on which the code ends the compilation with an error, or
 * an internal error */
void vf_end_path(void) { if(vf_random) longjmp(again, 1); printf("REPLAY ok: path ends in a permitted error\n"); exit(0); }
#endif
