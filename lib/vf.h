/* Shared by every harness.  A harness is built twice from /repo's current
 * sources: by goto-cc with -DVF_CBMC (the contract proof) and by gcc with
 * -DVF_NATIVE (the replay of a counterexample against the real code).
 *
 * A contract is written once, as C predicates over the arguments, the result
 * and the ghost state; CBMC sees it as requires/ensures clauses on a
 * declaration that precedes the real definition, the replay evaluates the
 * same predicates. */
#ifndef VF_H
#define VF_H

#include <stdint.h>
#include <stddef.h>
#include <limits.h>

typedef unsigned long long vf_u64;
typedef long long vf_s64;

#define VF_NIN 512

/* ghost state written by the stand-ins of the diagnostics functions */
struct vf_ghost
{
	int died;           /* die_at() & co. called */
	int die_ok;         /* the specification permits an error here */
	unsigned nwarn;     /* warnings issued */
	unsigned nerr;      /* non-fatal errors issued */
	const unsigned char *lastwarn;
};
extern struct vf_ghost vf_g;

#ifdef VF_CBMC

vf_u64 nondet_vf_u64(void);
void nondet_vf_fill(void);

extern vf_u64 VF_IN[VF_NIN];
extern unsigned vf_nin;

static vf_u64 vf_in(void)
{
	vf_u64 v = nondet_vf_u64();
	VF_IN[vf_nin++] = v;
	return v;
}

#define vf_assume(c) __CPROVER_assume(c)
#define vf_assert(c, m) __CPROVER_assert(c, "VFSPEC " m)
#ifdef VF_NOCOVER /* for back ends that cannot print traces of unions */
#define vf_cover(c, m) ((void)0)
#else
#define vf_cover(c, m) __CPROVER_assert(!(c), "VFCOVER " m)
#endif
#ifndef VF_PLAIN
#define REQUIRES(...) __CPROVER_requires(__VA_ARGS__)
#define ENSURES(...) __CPROVER_ensures(__VA_ARGS__)
#define ASSIGNS(...) __CPROVER_assigns(__VA_ARGS__)
#define FREES(...) __CPROVER_frees(__VA_ARGS__)
#else
#define REQUIRES(...)
#define ENSURES(...)
#define ASSIGNS(...)
#define FREES(...)
#endif
#define RET __CPROVER_return_value
#define OLD(x) __CPROVER_old(x)
#define LOOPINV(...) __CPROVER_loop_invariant(__VA_ARGS__)
#ifdef VF_PLAIN
/* the same contract as assume/assert around the call, without dfcc's frame
 * instrumentation (for back ends that cannot carry it) */
#define VF_PRE(c) __CPROVER_assume(c)
#define VF_POST(c, m) __CPROVER_assert(c, "VFSPEC postcondition " m)
#else
/* the contract carries these when proving */
#define VF_PRE(c) ((void)0)
#define VF_POST(c, m) ((void)0)
#endif
/* keeps predicates only used in contracts alive */
#define VF_KEEP(...) do{ if(vf_never){ __VA_ARGS__; } }while(0)
extern int vf_never;

#else /* native replay */

#include <stdio.h>
#include <stdlib.h>

extern vf_u64 VF_IN[VF_NIN];
extern unsigned vf_nin;
extern int vf_random;
vf_u64 vf_in(void);
void vf_reject(void) __attribute__((noreturn));
void vf_violated(const char *what, const char *file, int line) __attribute__((noreturn));

#define vf_assume(c) do{ if(!(c)) vf_reject(); }while(0)
#define vf_assert(c, m) do{ if(!(c)) vf_violated(m, __FILE__, __LINE__); }while(0)
#define vf_cover(c, m) ((void)0)
#define REQUIRES(...)
#define ENSURES(...)
#define ASSIGNS(...)
#define FREES(...)
#define VF_PRE(c) vf_assume(c)
#define VF_POST(c, m) vf_assert(c, m)
#define VF_KEEP(...) ((void)0)
#define __CPROVER_assume(c) vf_assume(c)
#define __CPROVER_assert(c, m) vf_assert(c, m)

#endif

void harness(void);

/* first statement of a harness. goto-instrument --dfcc makes every static of
 * the program (the real code's too) arbitrary before the harness starts. */
#ifdef VF_CBMC
#define VF_INIT() do{ static const struct vf_ghost z = { 0 }; vf_g = z; vf_nin = 0; vf_never = 0; }while(0)
#else
#define VF_INIT() ((void)0)
#endif

/* inclusive range */
static inline unsigned vf_inr(unsigned lo, unsigned hi)
{
	vf_u64 v = vf_in();
#ifdef VF_NATIVE
	if(vf_random)
		VF_IN[vf_nin - 1] = v = lo + v % ((vf_u64)hi - lo + 1);
#endif
	vf_assume(v >= lo && v <= hi);
	return (unsigned)v;
}

static inline int vf_inb(void)
{
	return vf_inr(0, 1);
}

#endif
