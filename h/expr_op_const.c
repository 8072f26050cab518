/* Constant folding of one operator node: operands are integer constants,
 * numeric addresses, labels or non-constants.  const_op_exec() is replaced by
 * its contract (proved on its own). */
#include "vf.h"
#ifndef SAMELBL
#define SAMELBL 0
#endif
#include "cc1/ops/expr_op.c"
#include "types.h"
#include "diag.h"
#ifndef VF_CBMC
#include "cc1/const.h"
#endif

static enum type_primitive g_p;
static enum op_type g_op;
static int g_cmp, g_unary, g_l_ptr, g_r_ptr;

static struct vf_opcall { int n, div0, ok; vf_u64 l, r; int hasr; vf_u64 ret; enum op_type op; } g_call;

#ifdef VF_CBMC
integral_t const_op_exec(integral_t lval, const integral_t *rval, enum op_type op, type *ty, const char **error)
{
	g_call.n++;
	g_call.l = lval;
	g_call.hasr = !!rval;
	g_call.r = rval ? *rval : 0;
	g_call.op = op;
	/* done in the type of the (converted) operands */
	g_call.ok = op == op_not || g_l_ptr || g_r_ptr || (type_is_signed(ty) == sp_signed(g_p) && type_size(ty, 0) == sp_size(g_p));
	if((op == op_divide || op == op_modulus) && rval && !*rval){
		*error = "division by zero";
		g_call.div0 = 1;
		return 0;
	}
	return g_call.ret = nondet_vf_u64();
}
#endif

static vf_u64 expect(vf_u64 l, const vf_u64 *r, type *ty)
{
#ifdef VF_CBMC
	return g_call.ret;
#else
	const char *err = 0;
	g_call.n = 1; g_call.ok = 1; g_call.l = l; g_call.hasr = !!r; g_call.r = r ? *r : 0; g_call.op = g_op;
	g_call.div0 = r && !*r && (g_op == op_divide || g_op == op_modulus);
	return const_op_exec(l, r, g_op, ty, &err);
#endif
}

static expr E, L, R;
static struct_union_enum_st vf_sue;

static const char lbl_a[] = "a", lbl_b[] = "b";
static stringlit lit_s;
static stringlit_at lit_at;

static void operand(expr *e, type *t, consty k)
{
	static const expr z;
	*e = z;
	e->tree_type = t;
	e->f_str = str_expr_op;
	e->f_const_fold = fold_const_expr_op; /* folded already: not called */
	e->const_eval.const_folded = 2;
	e->const_eval.k = k;
}

#define OPERATORS_BIN op_multiply, op_divide, op_modulus, op_plus, op_minus, op_xor, op_or, op_and, \
	op_eq, op_ne, op_le, op_lt, op_ge, op_gt, op_shiftl, op_shiftr
#define OPERATORS_UN op_plus, op_minus, op_not, op_bnot

static void mk(type *tl, consty kl, type *tr, const consty *kr, type *te)
{
	static const expr z;
	E = z;
	operand(&L, tl, kl);
	if(kr)
		operand(&R, tr, *kr);
	E.lhs = &L;
	E.rhs = kr ? &R : 0;
	E.bits.op.op = g_op;
	E.tree_type = te;
	mutate_expr_op(&E);
	E.f_str = str_expr_op;
}

static int is_cmp(enum op_type op)
{
	return op == op_eq || op == op_ne || op == op_lt || op == op_le || op == op_gt || op == op_ge
		|| op == op_not || op == op_andsc || op == op_orsc;
}

/* kind: 0 number, 1 numeric address, 2 label, 3 weak label, 4 string, 5 not constant, 6 address needed */
static consty sc_operand(unsigned kind, const char *lbl, int *pv)
{
	static const consty kz;
	consty q = kz;
	vf_u64 v = vf_in(), off = vf_in();
	switch(kind){
		case 0: q.type = CONST_NUM; q.bits.num.val.i = v; *pv = v != 0; break;
		case 1: q.type = CONST_ADDR; q.bits.addr.lbl_type = CONST_LBL_MEMADDR; q.bits.addr.bits.memaddr = v;
			q.offset = off; *pv = v + off != 0; break;
		case 2: q.type = CONST_ADDR; q.bits.addr.lbl_type = CONST_LBL_TRUE; q.bits.addr.bits.lbl = lbl;
			q.offset = off; *pv = 1; break;
		case 3: q.type = CONST_ADDR; q.bits.addr.lbl_type = CONST_LBL_WEAK; q.bits.addr.bits.lbl = lbl;
			q.offset = off; *pv = 2; break;
		case 4: q.type = CONST_STRK; q.bits.str = &lit_at; q.offset = off; *pv = 1; break;
		case 5: q.type = CONST_NO; *pv = 2; break;
		default: q.type = CONST_NEED_ADDR; q.bits.addr.lbl_type = CONST_LBL_TRUE; q.bits.addr.bits.lbl = lbl; *pv = 2; break;
	}
	return q;
}

void harness(void)
{
	static const consty kz;
	consty kl, kr, k;
	type *t, *ti;

	VF_INIT();
	vf_types_init();
	kl = kz; kr = kz;
	{ static const struct vf_opcall z; g_call = z; }
	g_l_ptr = g_r_ptr = 0;
	ti = vf_type(1, type_int);

#if defined CASE_INT
	{
		/* both operands integer constants of the common type */
		static const enum op_type kb[] = { OPERATORS_BIN }, ku[] = { OPERATORS_UN };
		vf_u64 want;
		int shift;
		g_p = vf_in_promoted();
		g_unary = UNARYV;
		g_op = g_unary ? ku[vf_inr(0, 3)] : kb[vf_inr(0, 15)];
		g_cmp = is_cmp(g_op);
		shift = g_op == op_shiftl || g_op == op_shiftr;
		kl.type = CONST_NUM;
		kl.bits.num.val.i = vf_in();
		kr.type = CONST_NUM;
		kr.bits.num.val.i = vf_in();
		vf_assume(sp_rep(kl.bits.num.val.i, g_p));
		if(shift) vf_assume(kr.bits.num.val.i < sp_size(g_p) * 8);
		else vf_assume(sp_rep(kr.bits.num.val.i, g_p));
		t = vf_type(0, g_p);
		ti = vf_type(1, g_cmp ? type_int : g_p);
		mk(t, kl, t, g_unary ? 0 : &kr, ti);
		E.f_const_fold(&E, &k);
		want = expect(kl.bits.num.val.i, g_unary ? 0 : &kr.bits.num.val.i, t);
		vf_assert(g_call.n == 1, "the operator is evaluated once");
		vf_assert(g_call.ok, "it is evaluated in the type of its operands");
		vf_assert(g_call.l == kl.bits.num.val.i, "the left operand's value is used");
		vf_assert(g_unary ? !g_call.hasr : g_call.hasr && g_call.r == kr.bits.num.val.i, "the right operand's value is used");
		vf_assert(g_call.op == g_op, "the operator is the one written");
		if(g_call.div0){
			vf_assert(k.type == CONST_NO, "a division by zero is not a constant");
			vf_assert(vf_g.nwarn == 1, "a division by zero is warned about");
		}else{
			vf_assert(k.type == CONST_NUM && k.offset == 0, "integer operator on constants is a constant");
			vf_assert(k.bits.num.val.i == want, "its value is the evaluated one");
			vf_assert(K_INTEGRAL(k.bits.num), "an integer operator gives an integer constant");
			vf_assert(!k.nonstandard_const && !k.nonconst, "integer operator on constants is a standard constant");
		}
		vf_cover(!g_call.div0, "folded");
		vf_cover(g_unary || g_call.div0, "division by zero");
	}
#elif defined CASE_SC
	/* && and ||: 0/1/label/weak label/non-constant operands */
	g_op = SCOP;
	g_p = type_int;
	t = vf_type(0, g_p);
	if(LK >= 1 && LK <= 4)
		t = vf_ptrto(0, t);
	lit_s.lbl = (char *)lbl_a;
	lit_at.lit = &lit_s;
#define SC1(rk) { \
		int va, vb, vk; \
		kl = sc_operand(LK, lbl_a, &va); \
		kr = sc_operand(rk, lbl_b, &vb); \
		mk(t, kl, t, &kr, ti); \
		E.f_const_fold(&E, &k); \
		/* lhs decides, or rhs does; an unknown lhs leaves it unknown (its side effects) */ \
		if(va == 2) vk = 2; \
		else if(g_op == op_andsc) vk = va ? vb : 0; \
		else vk = va ? 1 : vb; \
		vf_assert(vk == 2 ? k.type == CONST_NO : k.type == CONST_NUM, "&& and || are constant only when decided by what is known of their operands"); \
		vf_assert(vk == 2 || k.bits.num.val.i == (vf_u64)vk, "&& and || give 0 or 1 by the truth of their operands"); \
		vf_cover(1, "reached"); \
	}
	SC1(0) SC1(1) SC1(2) SC1(3) SC1(4) SC1(5) SC1(6)
#elif defined CASE_PTR
	{
		/* pointer arithmetic on numeric or label addresses: scaled by the size of the pointed-to type */
		unsigned sz, form = FORM, lk, rk;
		vf_u64 a = vf_in(), b = vf_in(), n = vf_in(), want;
		type *pt;
		/* a struct of some size */
		t = vf_type(0, type_struct);
		vf_bt0.sue = &vf_sue;
		vf_sue.primitive = type_struct;
		vf_sue.membs_progress = SUE_MEMBS_COMPLETE;
		vf_sue.foldprog = SUE_FOLDED_FULLY;
		sz = vf_inr(1, UINT_MAX);
		vf_sue.size = sz;
		vf_sue.align = 1;
		lit_s.lbl = (char *)lbl_a;
		lit_at.lit = &lit_s;
		pt = vf_ptrto(0, t);
		/* lk: 0 numeric address, 1 label, 2 weak label, 3 string */
		lk = LK;
		rk = RK;
		kl.type = kr.type = CONST_ADDR;
		kl.bits.addr.lbl_type = lk == 0 ? CONST_LBL_MEMADDR : lk == 1 ? CONST_LBL_TRUE : CONST_LBL_WEAK;
		if(lk) kl.bits.addr.bits.lbl = lbl_a; else kl.bits.addr.bits.memaddr = 0;
		kl.offset = a;
		if(lk == 3){ kl = kz; kl.type = CONST_STRK; kl.bits.str = &lit_at; kl.offset = a; }
		if(form < 3){
			consty kn = kz;
			g_l_ptr = form != 1; g_r_ptr = form == 1;
			kn.type = CONST_NUM;
			kn.bits.num.val.i = n;
#if RK == 4
			/* the integer is an address' value */
			kn = kz;
			kn.type = CONST_ADDR;
			kn.bits.addr.lbl_type = CONST_LBL_TRUE;
			kn.bits.addr.bits.lbl = lbl_b;
			kn.offset = n;
#endif
			g_op = form == 2 ? op_minus : op_plus;
			if(form == 1) mk(ti, kn, pt, &kl, pt);
			else mk(pt, kl, ti, &kn, pt);
			E.f_const_fold(&E, &k);
			if(rk == 4)
				vf_assert(k.type == CONST_NO || (sz == 1 && !lk && form != 2), "an address can't be scaled at compile time");
			else if(lk){
				vf_assert(lk == 3 ? k.type == CONST_STRK && k.bits.str == &lit_at
						: k.type == CONST_ADDR && k.bits.addr.lbl_type == kl.bits.addr.lbl_type && k.bits.addr.bits.lbl == lbl_a,
						"an offset address stays in the same object");
				vf_assert((vf_u64)k.offset == (form == 2 ? a - n * sz : a + n * sz), "an integer added to an address is scaled by the size pointed to");
			}else{
				vf_u64 l = a, r = n * sz;
				if(form == 1){ l = n * sz; r = a; }
				want = expect(l, &r, pt);
				vf_assert(k.type == CONST_NUM && k.bits.num.val.i == want && g_call.n == 1 && g_call.op == g_op && g_call.l == l && g_call.hasr && g_call.r == r,
						"an integer added to a numeric address is scaled by the size pointed to");
			}
		}else{
			/* difference and equality of two addresses */
			int same, known;
			unsigned which = WHICH;
			kr.bits.addr.lbl_type = rk == 0 ? CONST_LBL_MEMADDR : rk == 1 ? CONST_LBL_TRUE : CONST_LBL_WEAK;
			same = SAMELBL;
			if(rk) kr.bits.addr.bits.lbl = same ? lbl_a : lbl_b; else kr.bits.addr.bits.memaddr = 0;
			kr.offset = b;
			if(rk == 3){ kr = kz; kr.type = CONST_STRK; kr.bits.str = &lit_at; kr.offset = b; same = lk == 1 || lk == 3; }
			g_op = which == 0 ? op_minus : which == 1 ? op_eq : op_ne;
			g_l_ptr = g_r_ptr = 1;
			g_cmp = which != 0;
			mk(pt, kl, pt, &kr, which == 0 ? vf_type(2, type_long) : ti);
			E.f_const_fold(&E, &k);
			known = lk != 2 && rk != 2;
			if(which == 0){
				if(!lk && !rk || known && same){
					vf_assert(k.type == CONST_NUM, "the difference of two addresses in one object is known");
					vf_assert(((vf_s64)(a - b) % (vf_s64)sz) != 0 || k.bits.num.val.i == (vf_u64)((vf_s64)(a - b) / (vf_s64)sz), "address difference counts elements");
				}else{
					vf_assert(k.type == CONST_NO, "the difference of unrelated addresses isn't a constant");
				}
			}else if(lk && rk){
				if(lk == 2 || rk == 2){
					vf_assert(k.type == CONST_NO, "weak addresses aren't known equal or different");
				}else if(same || 1){
					/* different objects: different, unless one-past-the-end games */
					vf_assert(k.type == CONST_NUM, "comparison of two known addresses is constant");
					vf_assert(k.bits.num.val.i == ((same && a == b) == (which == 1)), "addresses are equal if in the same object at the same offset");
				}
			}else if(lk || rk){
				vf_u64 num = lk ? b : a;
				if(num == 0 && lk != 2 && rk != 2){
					vf_assert(k.type == CONST_NUM && k.bits.num.val.i == (which == 2), "an object's address is not null");
				}else{
					vf_assert(k.type == CONST_NO, "an address isn't compared with a number, or a maybe-null one with null");
				}
			}
		}
		vf_cover(1, "reached");
	}
#endif
}
