/* const_op_exec(): the value of one integer operator applied to constants */
#include "vf.h"
#include "cc1/const.c"
#include "types.h"
#include "diag.h"

/* C99 6.5.x: `def` is whether C defines the result, `*out` the canonical
 * pattern of the value */
static int spec_op(enum op_type op, vf_u64 l, const vf_u64 *pr, enum type_primitive p, vf_u64 *out)
{
	const unsigned bits = sp_size(p) * 8;
	const int sg = sp_signed(p);
	const vf_u64 r = pr ? *pr : 0;
	vf_wide w;

	switch(op){
		case op_not: *out = l == 0; return 1;
		case op_bnot: *out = sp_conv(~l, p); return 1;
		case op_eq: *out = l == r; return 1;
		case op_ne: *out = l != r; return 1;
		case op_lt: *out = sg ? (vf_s64)l < (vf_s64)r : l < r; return 1;
		case op_le: *out = sg ? (vf_s64)l <= (vf_s64)r : l <= r; return 1;
		case op_gt: *out = sg ? (vf_s64)l > (vf_s64)r : l > r; return 1;
		case op_ge: *out = sg ? (vf_s64)l >= (vf_s64)r : l >= r; return 1;
		case op_andsc: *out = l && r; return 1;
		case op_orsc: *out = l || r; return 1;
		case op_and: *out = l & r; return 1;
		case op_or: *out = l | r; return 1;
		case op_xor: *out = l ^ r; return 1;
		case op_plus:
			w = pr ? sp_val(l, p) + sp_val(r, p) : sp_val(l, p);
			break;
		case op_minus:
			w = pr ? sp_val(l, p) - sp_val(r, p) : -sp_val(l, p);
			break;
		case op_multiply:
			if(!sg){
				*out = (l * r) & sp_mask(bits / 8);
				return 1;
			}
			/* defined only if the product is representable: a 64-bit one is then
			 * the product modulo 2^64, narrower ones can't leave 64 bits */
			*out = l * r;
			return bits == 64 || sp_rep(*out, p);
		case op_divide:
		case op_modulus:
			if(r == 0)
				return 0;
			if(sg){
				if((vf_s64)r == -1){
					if(op == op_modulus){ *out = 0; return sp_val(l, p) != -((vf_wide)1 << (bits - 1)); }
					w = -sp_val(l, p);
					break;
				}
				*out = op == op_divide ? (vf_u64)((vf_s64)l / (vf_s64)r) : (vf_u64)((vf_s64)l % (vf_s64)r);
			}else{
				*out = op == op_divide ? l / r : l % r;
			}
			return 1;
		case op_shiftl:
			if(r >= bits) return 0;
			if(!sg){
				*out = (l << r) & sp_mask(bits / 8);
				return 1;
			}
			if((vf_s64)l < 0) return 0;
			w = (vf_wide)l << r;
			break;
		case op_shiftr:
			if(r >= bits) return 0;
			/* arithmetic for negative values, as gcc and the generated code have it */
			*out = sg ? (vf_u64)((vf_s64)l >> r) : l >> r;
			return 1;
		default:
			return 0;
	}
	if(!sg){
		*out = (vf_u64)w & sp_mask(bits / 8);
		return 1;
	}
	*out = (vf_u64)w;
	return sp_fits(w, p);
}

static enum type_primitive g_p;

#if defined VF_PLAIN && defined VF_CBMC
/* the contracts of these callees (proved in the other units, which link the
 * real ones) */
unsigned type_size(type *t, const where *w) { (void)t; (void)w; return sp_size(g_p); }
int type_is_signed(type *t) { (void)t; return sp_signed(g_p); }
#endif

static int pre_f(integral_t l, const integral_t *r, enum op_type op, type *t)
{
	int sh = op == op_shiftl || op == op_shiftr;
	if(op == op_not)
		return !r; /* the truth of any pattern */
	if(!sp_rep(l, g_p))
		return 0;
	if(!r)
		return op == op_plus || op == op_minus || op == op_not || op == op_bnot;
	if(op == op_not || op == op_bnot)
		return 0;
	/* operands have one type, except a shift's count, which may be of any
	 * type; a count outside the width is undefined and diagnosed elsewhere */
	if(sh)
		return *r < sp_size(g_p) * 8;
	return sp_rep(*r, g_p);
}

static int post_f(integral_t l, const integral_t *pr, enum op_type op, const char *err, integral_t ret)
{
	vf_u64 want;
	int div0 = pr && *pr == 0 && (op == op_divide || op == op_modulus);
	if(!!err != div0)
		return 0;
	if(div0)
		return 1;
	if(!spec_op(op, l, pr, g_p, &want))
		return 1;
	return ret == want;
}

integral_t const_op_exec(
		integral_t lval, const integral_t *rval,
		enum op_type op, struct type *arithty,
		const char **error)
REQUIRES(pre_f(lval, rval, op, arithty))
ENSURES(post_f(OLD(lval), rval, OLD(op), *error, RET))
ASSIGNS(*error)
;

void harness(void)
{
	integral_t l, r, ret;
	const integral_t *pr;
	const char *err = 0;
	enum op_type op;
	type *t;

	VF_INIT();
	vf_types_init();
	l = vf_in();
	r = vf_in();
#ifdef PRIM
	g_p = PRIM;
#else
	g_p = vf_in_promoted();
#endif
#ifdef UNARY
	pr = 0;
#else
	pr = &r;
#endif
#ifdef OP1
	op = OP1;
#else
	{ static const enum op_type k[] = { OPS }; op = k[vf_inr(0, sizeof k / sizeof *k - 1)]; }
#endif
	t = vf_qtype(0, g_p);
	VF_KEEP(pre_f(l, pr, op, t), post_f(l, pr, op, err, 0));
	VF_PRE(pre_f(l, pr, op, t));
	ret = const_op_exec(l, pr, op, t, &err);
	VF_POST(post_f(l, pr, op, err, ret), "const_op_exec: the folded value is the one C gives");
	vf_cover(!err, "folded");
}
