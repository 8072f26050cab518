/* Code generation of a conversion between integers and pointers:
 * the value converted is the one C defines, for every kind of operand. */
#include "vf.h"
#include "cc1/out/out.c"
#include "types.h"
#include "diag.h"
#include "outval.h"

#define SZ(t) (type_is_ptr(t) ? 8u : (unsigned)type_size(t, 0))
static out_val *n_0, *n_1, *n_2;
static int n_vals;
static out_val *fresh(void)
{
	switch(n_vals++){
		case 0: return n_0;
		case 1: return n_1;
		case 2: return n_2;
	}
	vf_assert(0, "no more values are made than the conversion needs");
	return 0;
}
out_val *v_dup_or_reuse(out_ctx *o, const out_val *v, type *t) { (void)o; ((out_val *)v)->t = t; return (out_val *)v; }
const out_val *v_to_reg(out_ctx *o, const out_val *v)
{
	out_val *m = (out_val *)v;
	vf_u64 x = gv_val(v);
	(void)o;
	m->t = gv_type(v);
	gv_init(m, V_REG, m->t, 9, x, 0);
	return m;
}
const out_val *v_reg_apply_offset(out_ctx *o, const out_val *v)
{
	(void)o;
	vf_assert(v->type == V_REG, "only a register has its offset applied");
	gv_init((out_val *)v, V_REG, v->t, 9, gv_val(v), 0);
	return v;
}
void impl_comment(out_ctx *o, const char *f, va_list l) { (void)o; (void)f; }
enum type_cmp type_cmp(type *a, type *b, enum type_cmp_opts o) { (void)o; return !type_is_ptr(a) && !type_is_ptr(b) && type_primitive(a) == type_primitive(b) ? TYPE_EQUAL : TYPE_NOT_EQUAL; }
const char *type_to_str(type *t) { (void)t; return ""; }
const char *type_to_str_r(char b[], type *t) { (void)t; return b; }
/* an instruction that sign- or zero-extends, of the source's register alone: it can't see a pending offset */
const out_val *impl_cast_load(out_ctx *o, const out_val *v, type *from, type *to, int sgn)
{
	out_val *res = fresh();
	vf_u64 x;
	(void)o;
	vf_assert(v->type != V_REG || !v->bits.regoff.offset, "an extended register has no offset pending");
	vf_assert(SZ(to) > SZ(from), "only a widening extends");
	x = gv_val(v);
	gv_init(res, V_REG, to, 10, sp_conv_bits(sp_conv_bits(x, SZ(from), sgn), SZ(to), 0), 0);
	return res;
}
out_val *v_mutable_copy(out_ctx *o, const out_val *v)
{
	(void)o;
	return v->type == V_SPILT ? (out_val *)v_to_reg(o, v) : (out_val *)v;
}
out_val *out_new_zero(out_ctx *o, type *t)
{
	out_val *v = fresh();
	(void)o;
	gv_init(v, V_CONST_I, t, 0, 0, 0);
	return v;
}
const out_val *out_op(out_ctx *o, enum op_type op, const out_val *l, const out_val *r)
{
	out_val *res = fresh();
	unsigned sz = SZ(gv_type(l));
	(void)o;
	vf_assert(op == op_ne && sz == SZ(gv_type(r)), "a value is normalised by comparing it in its own type");
	gv_init(res, V_FLAG, vf_type(6, type__Bool), 0, sp_conv_bits(gv_val(l), sz, 0) != sp_conv_bits(gv_val(r), sz, 0), 0);
	return res;
}

static enum out_val_store kind(int k)
{
	switch(k){
		case 0: return V_CONST_I;
		case 1: return V_REG;
		case 2: return V_LBL;
		case 3: return V_REGOFF;
		case 4: return V_SPILT;
		default: return V_FLAG;
	}
}

static void one(int LK, int NORM)
{
	out_val L, n0, n1, n2;
	enum type_primitive p, q;
	type *f, *t;
	vf_u64 l, off, want, got;
	unsigned fsz, tsz;
	int fsg, tsg, norm = NORM;
	const out_val *res;
	l = vf_in(); off = vf_in();
	p = PRIM; q = PTRTO ? type_long : vf_in_intprim();
	if(LK == 5){ p = type_int; }
	f = PTRFROM ? vf_ptrto(2, vf_type(2, type_int)) : vf_type(0, p);
	t = PTRTO ? vf_ptrto(3, vf_type(3, type_nchar)) : vf_type(1, q);
	fsz = PTRFROM ? 8 : sp_size(p); fsg = PTRFROM ? 0 : sp_signed(p);
	tsz = PTRTO ? 8 : sp_size(q); tsg = PTRTO ? 0 : sp_signed(q);
	if(norm) vf_assume(q == type__Bool && !PTRTO);
	else vf_assume(q != type__Bool || PTRTO);
	if(p == type__Bool) l &= 1, off = 0;
	if(LK == 0) vf_assume(PTRFROM || sp_rep(l, p));
	cc1_fopt.const_fold = vf_in() & 1;
	n_vals = 0;
	n_0 = &n0; n_1 = &n1; n_2 = &n2;
	gv_init(&L, kind(LK), LK == 4 ? vf_ptrto(4, f) : f, 1, l, off);
	l = sp_conv_bits(gv_val(&L), fsz, fsg);
	want = norm ? l != 0 : sp_conv_bits(l, tsz, tsg);
	res = out_cast(0, &L, t, norm);
	got = gv_val(res);
	vf_assert(sp_conv_bits(got, tsz, tsg) == want, "a conversion gives the value C defines");
	vf_assert(norm || res->t == t, "a converted value is of its new type");
	if(res->type == V_CONST_I && !PTRTO && LK == 0) vf_assert(sp_rep(res->bits.val_i, q), "a constant is held as a value of its type");
}

void harness(void)
{
	VF_INIT();
	vf_types_init();
	cc1_fopt.signed_char = 1;
	cc1_fopt.cast_w_builtin_types = 1;
#define X(k, n) one(k, n);
	CASES
	vf_cover(1, "reached");
}
