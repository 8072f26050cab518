/* Code generation of a binary operator: folding and strength reduction before
 * the instruction is chosen.  impl_op() stands for an instruction that does the
 * operation it's asked for; const_op_exec() is replaced by its contract. */
#include "vf.h"
#include "cc1/out/op.c"
#include "types.h"
#include "diag.h"
#include "outval.h"

#ifndef OP
#define OP op_plus
#endif

/* x * y, x / y and x % y of the operands the operator was given are opaque;
 * those of other operands are computed */
static vf_u64 g_l, g_r, g_opaque;
static int g_use_opaque, g_rsz, g_rsgn;

static vf_u64 eval(enum op_type op, vf_u64 a, vf_u64 b, unsigned sz, int sgn)
{
	if(g_use_opaque && (op == op_multiply || op == op_divide || op == op_modulus)){
		vf_assert(op == OP, "an operator isn't turned into another division");
		vf_assert((sp_conv_bits(a, sz, sgn) == g_l && sp_conv_bits(b, sz, sgn) == g_r)
				|| (op == op_multiply && sp_conv_bits(a, sz, sgn) == g_r && sp_conv_bits(b, sz, sgn) == g_l), "an operator is given its own operands");
		return g_opaque;
	}
	return gv_eval(op, a, b, sz, sgn);
}

/* ---- stand-ins */
static out_val *n_0, *n_1, *n_2, *n_3;
static int n_vals;
static out_val *fresh(void)
{
	switch(n_vals++){
		case 0: return n_0;
		case 1: return n_1;
		case 2: return n_2;
		case 3: return n_3;
	}
	vf_assert(0, "no more values are made than the operation needs");
	return 0;
}
out_val *out_new_l(out_ctx *o, type *t, long l)
{
	out_val *v = fresh();
	(void)o;
	gv_init(v, V_CONST_I, t, 0, (vf_u64)l, 0);
	return v;
}
void v_decay_flags_except(out_ctx *o, const out_val *e[]) { (void)o; (void)e; }
out_val *v_dup_or_reuse(out_ctx *o, const out_val *v, type *t) { (void)o; ((out_val *)v)->t = t; return (out_val *)v; }
out_val *v_mutable_copy(out_ctx *o, const out_val *v)
{
	(void)o;
	if(v->type == V_SPILT)
		v = v_to_reg(o, v);
	return (out_val *)v;
}
const out_val *v_to_reg(out_ctx *o, const out_val *v)
{
	out_val *m = (out_val *)v;
	vf_u64 x = gv_val(v);
	(void)o;
	m->t = gv_type(v);
	gv_init(m, V_REG, m->t, 9, x, 0);
	return m;
}
const out_val *out_val_release(out_ctx *o, const out_val *v) { (void)o; return v; }
int out_sanitize_enabled(out_ctx *o, enum san_opts s) { (void)o; (void)s; return 0; }
type *type_nav_btype(struct type_nav *n, enum type_primitive p) { (void)n; return p == type_void ? vf_type(6, type_void) : vf_type(5, p); }
type *type_ptr_to(type *t) { return vf_ptrto(7, t); }
static int n_impl;
const out_val *impl_op(out_ctx *o, enum op_type op, const out_val *l, const out_val *r)
{
	out_val *res = fresh();
	type *t = gv_type(l), *tr = gv_type(r);
	(void)o;
	n_impl++;
	gv_init(res, V_REG, type_is_ptr(t) || !type_is_ptr(tr) || op == op_multiply ? t : tr, n_impl == 1 ? 10 : 11, eval(op, gv_val(l), gv_val(r), type_size(t, 0), type_is_signed(t)), 0);
	return res;
}
#if MODE == 5
static vf_u64 eval1(enum op_type op, vf_u64 a, unsigned sz, int sgn);
#endif
integral_t const_op_exec(integral_t l, const integral_t *r, enum op_type op, type *t, const char **err)
{
#if MODE == 5
	vf_assert(!r, "a unary operator has one operand");
	return eval1(op, l, type_size(t, 0), type_is_signed(t));
#endif
	if((op == op_divide || op == op_modulus) && !*r){
		*err = "division by zero";
		return 0;
	}
	vf_assert(r != 0 && (type_is_arith(t) || type_is_ptr(t)), "constants are folded in their own type");
	return eval(op, l, *r, type_size(t, 0), type_is_signed(t));
}

#if MODE == 5
static vf_u64 eval1(enum op_type op, vf_u64 a, unsigned sz, int sgn)
{
	a = sp_conv_bits(a, sz, sgn);
	return sp_conv_bits(op == op_minus ? 0 - a : op == op_bnot ? ~a : op == op_not ? !a : a, sz, sgn);
}
const out_val *impl_op_unary(out_ctx *o, enum op_type op, const out_val *v)
{
	out_val *res = fresh();
	type *t = gv_type(v);
	(void)o;
	gv_init(res, V_REG, t, 10, eval1(op, gv_val(v), type_size(t, 0), type_is_signed(t)), 0);
	return res;
}
enum flag_cmp v_not_cmp(enum flag_cmp c) { gv_flag ^= 1; return c; }
#endif

static enum out_val_store kind(int k)
{
	switch(k){
		case 0: return V_CONST_I;
		case 1: return V_REG;
		case 2: return V_LBL;
		case 3: return V_REGOFF;
		case 4: return V_SPILT;
		default: return V_FLAG;
	}
}

static int is_cmp(enum op_type op) { return op == op_eq || op == op_ne || op == op_lt || op == op_gt || op == op_le || op == op_ge; }

#if MODE == 5
static void one(int LK)
{
	out_val L, n0;
	enum type_primitive p = PRIM;
	type *t = vf_type(0, p);
	vf_u64 l = vf_in(), want;
	const out_val *res;

	if(LK == 5){ t = vf_type(0, p = type_int); l &= 1; }
	if(LK == 0) vf_assume(sp_rep(l, p));
	cc1_fopt.const_fold = vf_in() & 1;
	n_vals = 0;
	n_0 = &n0;
	gv_init(&L, kind(LK), LK == 4 ? vf_ptrto(3, t) : t, 1, l, vf_in());
	want = eval1(OP, gv_val(&L), sp_size(p), sp_signed(p));
	res = out_op_unary(0, OP, &L);
	vf_assert(sp_conv_bits(gv_val(res), sp_size(p), sp_signed(p)) == want, "a unary operator's value is its operand's, transformed");
	if(res->type == V_CONST_I) vf_assert(sp_rep(res->bits.val_i, p), "a constant is held as a value of its type");
}
#else
/* MODE 0: integers; 1: integers, the constant operand is 1 << k; 2: pointer and integer; 3: integer and pointer; 4: two pointers */
static void one(int LK, int RK, int k)
{
	out_val L, R, n0, n1, n2, n3;
	
#ifdef PRIM
	enum type_primitive p = PRIM,
#else
	enum type_primitive p = (MODE >= 2) ? type_long : vf_in_intprim(),
#endif
#ifdef PRIMR
	 pr = PRIMR;
#else
	 pr = (OP == op_shiftl || OP == op_shiftr) ? vf_in_intprim() : p;
#endif
	type *tl = vf_type(0, p), *tr = OP == op_shiftl || OP == op_shiftr ? vf_type(1, pr) : tl;
	vf_u64 l = vf_in(), r = vf_in(), lo = vf_in(), ro = vf_in(), want, got;
	unsigned step = 1, sz = MODE >= 2 ? 8 : sp_size(p);
	int sgn = MODE >= 2 || sp_signed(p);
	const out_val *res;
	type *pt = 0;
	static type *lt, *rt;

#if MODE >= 2
	pt = vf_ptrto(0, vf_type(2, PTO));
	step = PTO == type_void ? 1 : sp_size(PTO);
	if(MODE == 2 || MODE == 4) tl = pt;
	if(MODE == 3 || MODE == 4) tr = pt;
#endif
	if(MODE == 1){
		k = vf_inr(0, sz * 8 - 1);
		if(LK == 0) l = 1ULL << k; else r = 1ULL << k;
	}
	if(MODE < 2){
		if(LK == 0) vf_assume(sp_rep(l, p));
		if(RK == 0) vf_assume(sp_rep(r, pr));
		if(p == type__Bool && OP == op_multiply) return;
	}
#ifdef CF
	cc1_fopt.const_fold = CF;
#else
	cc1_fopt.const_fold = vf_in() & 1;
#endif
	cc1_fopt.symbol_arith = vf_in() & 1;
	n_vals = n_impl = 0;
	n_0 = &n0; n_1 = &n1; n_2 = &n2; n_3 = &n3;
	lt = LK == 4 ? vf_ptrto(3, tl) : tl;
	rt = RK == 4 ? vf_ptrto(4, tr) : tr;
	gv_init(&L, kind(LK), lt, 1, l, lo);
	gv_init(&R, kind(RK), rt, 2, r, ro);
	l = gv_val(&L);
	r = gv_val(&R);
	if(MODE < 2){
		l = sp_conv_bits(l, sz, sgn);
		r = sp_conv_bits(r, sp_size(pr), sp_signed(pr));
	}
	if(OP == op_shiftl || OP == op_shiftr) vf_assume(r < sz * 8);
	if(OP == op_divide || OP == op_modulus) vf_assume(r != 0 && !(sgn && r == ~0ULL));
	g_l = l; g_r = r;
	g_use_opaque = MODE == 0 && (OP == op_multiply || OP == op_divide || OP == op_modulus);
	if(MODE == 1){
		g_use_opaque = 1;
		g_opaque = OP == op_multiply ? sp_conv_bits(LK ? l << k : r << k, sz, sgn) : OP == op_divide ? l >> k : l & (r - 1);
	}
	else if(g_use_opaque){
		/* multiplying or dividing by a power of two: MODE 1 */
		vf_assume(sgn || ((LK || !l || (l & (l - 1))) && (RK || !r || (r & (r - 1)))));
		g_opaque = sp_conv_bits(vf_in(), sz, sgn);
		if(OP == op_multiply && ((LK == 0 && l == 1) || (RK == 0 && r == 1))) vf_assume(g_opaque == (LK == 0 && l == 1 ? r : l));
		if(OP == op_divide && r == 1) vf_assume(g_opaque == l);
	}
#if MODE == 4
	want = OP == op_minus ? (vf_u64)((vf_s64)(l - r) / (vf_s64)step) : gv_eval(OP, l, r, 8, 1);
#elif MODE == 3
	want = l * step + r;
#elif MODE == 2
	want = OP == op_plus ? l + r * step : OP == op_minus ? l - r * step : gv_eval(OP, l, r, 8, 1);
#else
	want = g_use_opaque ? g_opaque : gv_eval(OP, l, r, sz, sgn);
#endif
	res = out_op(0, OP, &L, &R);
	got = gv_val(res);
	if(!is_cmp(OP))
		got = sp_conv_bits(got, sz, sgn);
	else if(res->type == V_CONST_I)
		got = res->bits.val_i;
	if(MODE < 2 && !is_cmp(OP) && res->type == V_CONST_I) vf_assert(sp_rep(res->bits.val_i, p), "a constant is held as a value of its type");
	vf_assert(got == want, "the value of an operator is that of its operands combined");
}
#endif

void harness(void)
{
	VF_INIT();
	vf_types_init();
	cc1_fopt.signed_char = 1;
	cc1_fopt.cast_w_builtin_types = 1;
#if MODE == 5
#define X(l, r) one(l);
#else
#define X(l, r) one(l, r, 0);
#endif
	CASES
	vf_cover(1, "reached");
}
