/* What an out_val denotes: the ghost value of its register, label, memory or
 * flag, plus its offset; or its constant. */
#ifndef VF_OUTVAL_H
#define VF_OUTVAL_H
#include "cc1/out/val.h"

static vf_u64 gv_reg[12]; /* of register N */
static vf_u64 gv_lbl, gv_flag;

static vf_u64 gv_val(const out_val *v)
{
	switch(v->type){
		case V_CONST_I: return v->bits.val_i;
		case V_REG: return gv_reg[v->bits.regoff.reg.idx] + (vf_u64)v->bits.regoff.offset;
		case V_SPILT:
		case V_REGOFF: return gv_reg[v->bits.regoff.reg.idx]; /* what is there */
		case V_LBL: return gv_lbl + (vf_u64)v->bits.lbl.offset;
		case V_FLAG: return gv_flag;
		default: vf_assert(0, "an integer operand isn't a floating constant"); return 0;
	}
}
/* a spilt value's type is a pointer to its own */
static type *gv_type(const out_val *v) { return v->type == V_SPILT ? type_is_ptr(v->t) : v->t; }

/* the value of a op b for operands of a type of this size and signedness */
static vf_u64 gv_eval(enum op_type op, vf_u64 a, vf_u64 b, unsigned sz, int sgn)
{
	vf_u64 r = 0;
	a = sp_conv_bits(a, sz, sgn);
	if(op != op_shiftl && op != op_shiftr) b = sp_conv_bits(b, sz, sgn);
	switch(op){
		case op_plus: r = a + b; break;
		case op_minus: r = a - b; break;
		case op_and: r = a & b; break;
		case op_or: r = a | b; break;
		case op_xor: r = a ^ b; break;
		case op_multiply: r = a * b; break;
		case op_divide: r = sgn ? (vf_u64)((vf_s64)a / (vf_s64)b) : a / b; break;
		case op_modulus: r = sgn ? (vf_u64)((vf_s64)a % (vf_s64)b) : a % b; break;
		case op_shiftl: r = a << (b & 63); break;
		case op_shiftr: r = sgn ? (vf_u64)((vf_s64)a >> (b & 63)) : a >> (b & 63); break;
		case op_eq: return a == b;
		case op_ne: return a != b;
		case op_lt: return sgn ? (vf_s64)a < (vf_s64)b : a < b;
		case op_le: return sgn ? (vf_s64)a <= (vf_s64)b : a <= b;
		case op_gt: return sgn ? (vf_s64)a > (vf_s64)b : a > b;
		case op_ge: return sgn ? (vf_s64)a >= (vf_s64)b : a >= b;
		default: vf_assert(0, "a binary operator"); break;
	}
	return sp_conv_bits(r, sz, sgn);
}

static void gv_init(out_val *v, enum out_val_store k, type *t, int idx, vf_u64 val, vf_u64 off)
{
	v->type = k;
	v->retains = 1;
	v->t = t;
	v->phiblock = 0;
	v->bitfield.nbits = 0;
	v->flags = 0;
	gv_reg[idx] = val;
	switch(k){
		case V_CONST_I: v->bits.val_i = val; break;
		case V_LBL: v->bits.lbl.offset = (long)off; v->bits.lbl.str = "l"; v->bits.lbl.pic_type = OUT_LBL_NOPIC; gv_lbl = val; break;
		case V_FLAG: v->bits.flag.cmp = flag_eq; v->bits.flag.mods = 0; gv_flag = val & 1; break;
		default: v->bits.regoff.reg.idx = idx; v->bits.regoff.reg.is_float = 0; v->bits.regoff.offset = (long)off; break;
	}
}
#endif
