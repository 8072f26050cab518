/* constant operands of every kind: 0 number, 1 numeric address, 2 label,
 * 3 weak label, 4 string, 5 not constant, 6 address needed.
 * *pv: its truth, or 2 if that isn't known when compiling */
#ifndef VF_CONSTS_H
#define VF_CONSTS_H
#include "cc1/const.h"
static const char vf_lbl_0[] = "a", vf_lbl_1[] = "b", vf_lbl_2[] = "c";
static stringlit_at vf_lit_0, vf_lit_1, vf_lit_2;

static consty vf_konst(unsigned kind, int which, int *pv)
{
	static const consty kz;
	consty q = kz;
	vf_u64 v = vf_in(), off = vf_in();
	const char *lbl = which == 0 ? vf_lbl_0 : which == 1 ? vf_lbl_1 : vf_lbl_2;
	switch(kind){
		case 0: q.type = CONST_NUM; q.bits.num.val.i = v; *pv = v != 0; break;
		case 1: q.type = CONST_ADDR; q.bits.addr.lbl_type = CONST_LBL_MEMADDR; q.bits.addr.bits.memaddr = v;
			q.offset = off; *pv = v + off != 0; break;
		case 2: q.type = CONST_ADDR; q.bits.addr.lbl_type = CONST_LBL_TRUE; q.bits.addr.bits.lbl = lbl;
			q.offset = off; *pv = 1; break;
		case 3: q.type = CONST_ADDR; q.bits.addr.lbl_type = CONST_LBL_WEAK; q.bits.addr.bits.lbl = lbl;
			q.offset = off; *pv = 2; break;
		case 4: q.type = CONST_STRK; q.bits.str = which == 0 ? &vf_lit_0 : which == 1 ? &vf_lit_1 : &vf_lit_2; q.offset = off; *pv = 1; break;
		case 5: q.type = CONST_NO; *pv = 2; break;
		default: q.type = CONST_NEED_ADDR; q.bits.addr.lbl_type = CONST_LBL_TRUE; q.bits.addr.bits.lbl = lbl; *pv = 2; break;
	}
	return q;
}

static const char *vf_operand_str(void) { return "operand"; }
static void vf_operand_fold(expr *e, consty *k) { (void)e; (void)k; }

/* an expression that has been folded to k already */
static expr *vf_operand(expr *e, type *t, const consty *k)
{
	vf_init_expr(e);
	e->tree_type = t;
	e->f_str = vf_operand_str;
	e->f_const_fold = vf_operand_fold; /* folded already: not called */
	e->const_eval.const_folded = 2;
	e->const_eval.k = *k;
	return e;
}
#endif
