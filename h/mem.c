/* Inline expansion of memcpy and memset: which bytes are read and written. */
#include "vf.h"
#include "cc1/cc1.h"
#include "cc1/fopt.h"
#include "cc1/op.h"
#include "types.h"
#include "diag.h"
#include "outval.h"
#include "cc1/out/out.h"

/* ghost: byte offsets of the destination and source pointers from where they
 * started, and how many bytes have been done, from the start on */
static struct g17 { vf_u64 d, s, done, ld, lsz, dstep, sstep, k, calls; } g;
static out_val *D, *S, *V, *K;
static vf_u64 N;
#define P5 (vf_bt5.primitive == type_ulong ? 8 : vf_bt5.primitive == type_uint ? 4 : vf_bt5.primitive == type_ushort ? 2 : vf_bt5.primitive == type_uchar ? 1 : 0)
#define INV_CPY (dest == D && src == S && bytes_todo <= N && N == nbytes && g.d == N - bytes_todo && g.s == g.d && g.done == g.d && g.calls == 0)
#define INV_CPY_IN (INV_CPY && step_sz >= 1 && step_sz <= 8 && g.dstep == step_sz && g.sstep == step_sz && step == &vf_ty5 && P5 == step_sz)
#define INV_SET (v_ptr == D && bytes_todo <= N && N == nbytes && g.d == N - bytes_todo && g.done == g.d && g.calls == 0)
#define INV_SET_IN (INV_SET && step_sz >= 1 && step_sz <= 8 && g.dstep == step_sz && step == &vf_ty5 && P5 == step_sz)
#define ASG __CPROVER_object_whole(&g), D->t, S->t, V->t, K->t, vf_bt5.primitive, vf_bt4.primitive
#define LOOPCT(inv, ...) __CPROVER_assigns(__VA_ARGS__, ASG) __CPROVER_loop_invariant(inv) __CPROVER_decreases(bytes_todo)
#include "cc1/out/mem.c"

static vf_u64 tsz(type *t) { return t == &vf_ty5 ? sp_size(vf_bt5.primitive) : t == &vf_ty4 ? sp_size(vf_bt4.primitive) : 0; }
unsigned type_size(type *t, const where *w) { (void)w; return tsz(t); }
/* its contract, proved in h/step.c */
static vf_u64 psz(type *t) { return t == &vf_pty7 ? tsz(&vf_ty5) : t == &vf_pty6 ? tsz(&vf_ty4) : 0; }
type *type_nav_MAX_FOR(struct type_nav *n, unsigned sz, int sgn) { vf_assert(!sgn && sz, "a step for some bytes"); vf_bt5.primitive = sz >= 8 ? type_ulong : sz >= 4 ? type_uint : sz >= 2 ? type_ushort : type_uchar; return &vf_ty5; }
type *type_nav_btype(struct type_nav *n, enum type_primitive p) { (void)n; vf_bt4.primitive = p; return &vf_ty4; }
type *type_ptr_to(type *t) { return t == &vf_ty5 ? &vf_pty7 : &vf_pty6; }
const out_val *out_change_type(out_ctx *o, const out_val *v, type *t)
{
	(void)o;
	((out_val *)v)->t = t;
	if(v == D) g.dstep = psz(t);
	if(v == S) g.sstep = psz(t);
	return v;
}
out_val *out_new_l(out_ctx *o, type *t, long l) { (void)o; K->t = t; g.k = (vf_u64)l; return K; }
out_val *out_new_zero(out_ctx *o, type *t) { (void)o; V->t = t; g.ld = ~0ULL; g.lsz = tsz(t); return V; }
const out_val *out_val_retain(out_ctx *o, const out_val *v) { (void)o; return v; }
const out_val *out_val_release(out_ctx *o, const out_val *v) { (void)o; return v; }
void out_comment(out_ctx *o, const char *f, ...) { (void)o; (void)f; }
const out_val *out_op(out_ctx *o, enum op_type op, const out_val *l, const out_val *r)
{
	vf_u64 by;
	(void)o;
	vf_assert((l == D || l == S) && r == K && (op == op_plus || op == op_minus), "a pointer is moved by a constant");
	by = l == D ? g.dstep : g.sstep;
	vf_assert(by == 1 || by == 2 || by == 4 || by == 8, "in steps of a word");
	by = by == 1 ? g.k : by == 2 ? g.k << 1 : by == 4 ? g.k << 2 : g.k << 3;
	if(op == op_minus) by = 0 - by;
	if(l == D) g.d += by; else g.s += by;
	return l;
}
const out_val *out_deref(out_ctx *o, const out_val *v)
{
	(void)o;
	vf_assert(v == S, "the source is read");
	vf_assert(g.s + g.sstep <= N && g.sstep >= 1, "only the source object is read");
	g.ld = g.s; g.lsz = g.sstep;
	return V;
}
void out_store(out_ctx *o, const out_val *d, const out_val *v)
{
	(void)o;
	vf_assert(d == D && v == V, "the destination is written");
	vf_assert(g.lsz == g.dstep && g.dstep >= 1, "a write is as wide as its value");
	vf_assert(g.d + g.dstep <= N, "only the destination object is written");
	vf_assert(g.d == g.done, "bytes are written in order, none left out");
	vf_assert(SET ? g.ld == ~0ULL : g.ld == g.d, "a byte is copied to the offset it was read from");
	g.done += g.dstep;
}
const out_val *out_call(out_ctx *o, const out_val *f, const out_val **a, type *t)
{
	(void)o; (void)t; (void)f;
	vf_assert(a[0] == D && (SET || a[1] == S) && a[2] == K && !a[3] && g.k == N, "the library is given the destination, source and size");
	g.calls++;
	return D;
}
type *type_nav_voidptr(struct type_nav *n) { (void)n; return &vf_pty7; }
funcargs *funcargs_new(void) { return 0; }
type *type_func_of(type *t, funcargs *a, struct symtable *s) { (void)a; (void)s; return t; }
char *func_mangle(const char *n, type *t) { (void)t; return (char *)n; }
out_val *out_new_lbl(out_ctx *o, type *t, const char *s, enum out_pic_type p) { (void)o; (void)s; (void)p; V->t = t; return V; }

void harness(void)
{
	out_val d, s, v, k;
	vf_u64 n = vf_in();
	struct g17 z = { 0 };
	const out_val *res;
	VF_INIT();
	vf_types_init();
	g = z;
	vf_ptrto(7, vf_type(5, type_void));
	vf_ptrto(6, vf_type(4, type_void));
	vf_assume(n <= UINT_MAX);
#ifdef MAXN
	vf_assume(n <= MAXN);
#endif
#ifdef VF_NATIVE
	n %= 300;
#endif
	cc1_fopt.freestanding = vf_in() & 1;
	cc1_fopt.verbose_asm = 0;
	cc1_mstringop_strategy = (int[]){ STRINGOP_STRATEGY_LIBCALL, STRINGOP_STRATEGY_LOOP, STRINGOP_STRATEGY_THRESHOLD }[vf_inr(0, 2)];
	cc1_mstringop_threshold = vf_in();
	D = &d; S = &s; V = &v; K = &k; N = n;
	d.t = s.t = vf_ptrto(3, vf_type(3, type_void));
	v.t = k.t = d.t;
	g.d = 0;
#if SET
	out_memset(0, &d, 0, n);
	res = D;
#else
	res = out_memcpy(0, &d, &s, n);
#endif
	vf_assert(g.calls == 1 || (g.calls == 0 && g.done == n), "every byte is written once");
	if(!SET) vf_assert(res == D && (g.calls || g.d == 0), "the destination is the result");
	vf_cover(n && !g.calls, "inline");
	vf_cover(g.calls, "call");
}
