/* Constant folding of c ? a : b and a ?: b, and the truth of a constant
 * controlling expression. */
#include "vf.h"
#include "cc1/ops/expr_if.c"
#include "types.h"
#include "diag.h"
#include "consts.h"

#if FORM == 0
void harness(void)
{
	VF_INIT();
	vf_types_init();
	{
		expr E, C, L, R;
		consty k, kc, kl, kr;
		const consty *want;
		int tc, dummy;
		kc = vf_konst(LK, 0, &tc);
		kl = vf_konst(vf_in() % 7, 1, &dummy);
		kr = vf_konst(vf_in() % 7, 2, &dummy);
		vf_init_expr(&E);
		E.expr = vf_operand(&C, vf_type(0, type_long), &kc);
		E.lhs = GNU ? 0 : vf_operand(&L, vf_type(1, type_long), &kl);
		E.rhs = vf_operand(&R, vf_type(2, type_long), &kr);
		E.tree_type = vf_type(3, type_long);
		mutate_expr_if(&E);
		const_fold(&E, &k);
		want = tc == 1 ? (GNU ? &kc : &kl) : &kr;
		if(tc == 2 || !CONST_AT_COMPILE_TIME(want->type)){
			vf_assert(k.type == CONST_NO, "?: whose condition, or the operand it picks, isn't constant isn't constant");
		}else{
			vf_assert(k.type == want->type && k.offset == want->offset, "?: gives the operand its condition picks");
			if(k.type == CONST_NUM)
				vf_assert(k.bits.num.val.i == want->bits.num.val.i && k.bits.num.suffix == want->bits.num.suffix, "?: gives the value its condition picks");
			else if(k.type == CONST_STRK)
				vf_assert(k.bits.str == want->bits.str, "?: gives the string its condition picks");
			else if(k.bits.addr.lbl_type == CONST_LBL_MEMADDR)
				vf_assert(want->bits.addr.lbl_type == CONST_LBL_MEMADDR && k.bits.addr.bits.memaddr == want->bits.addr.bits.memaddr, "?: gives the address its condition picks");
			else
				vf_assert(k.bits.addr.lbl_type == want->bits.addr.lbl_type && k.bits.addr.bits.lbl == want->bits.addr.bits.lbl, "?: gives the label its condition picks");
		}
		vf_cover(1, "reached");
	}
}
#else
/* is an expression certainly zero / certainly non-zero */
void harness(void)
{
	VF_INIT();
	{
		expr C;
		int t, z, nz;
		consty kc = vf_konst(LK, 0, &t);
		vf_operand(&C, vf_type(0, type_long), &kc);
		z = const_expr_and_zero(&C);
		nz = const_expr_and_non_zero(&C);
#if LK == 1
		/* an address of zero plus an offset is told apart from zero in a unit of its own */
		vf_assume(NULLOFF == (kc.bits.addr.bits.memaddr == 0 && kc.offset != 0));
#endif
		vf_assert(!z || t == 0, "only a constant zero is a constant zero");
		vf_assert(!nz || t == 1, "only a constant that isn't zero is constantly non-zero");
		if(kc.type == CONST_NUM || (kc.type == CONST_ADDR && kc.bits.addr.lbl_type == CONST_LBL_MEMADDR && !kc.offset)){
			vf_assert(!!z == (t == 0), "a constant zero is known to be zero");
			vf_assert(!!nz == (t == 1), "a constant non-zero number is known not to be zero");
		}
		vf_cover(1, "reached");
	}
}
#endif
