/* Constant folding of one cast node: C99 6.3.1.2 - 6.3.1.5, 6.3.2.3 */
#include "vf.h"
#include "cc1/ops/expr_cast.c"
#include "types.h"
#include "diag.h"
#ifndef VF_CBMC
#include "cc1/const.h"
#endif

static expr E, L;

#ifdef VF_CBMC
/* the text of warnings is not part of the property: an empty format */
char *ustrdup(const char *s)
{
	char *p = malloc(1);
	__CPROVER_assume(p != 0);
	*p = 0;
	(void)s;
	return p;
}
#endif
static const char lbl_a[] = "a";
static stringlit lit_s;
static stringlit_at lit_at;

static void mk(type *from, consty k, type *to, int implicit)
{
	static const expr z;
	E = z;
	L = z;
	L.tree_type = from;
	L.f_str = str_expr_cast;
	L.f_const_fold = (void (*)(expr *, consty *))fold_const_expr_cast; /* folded already: not called */
	L.const_eval.const_folded = 2;
	L.const_eval.k = k;
	E.expr = &L;
	E.bits.cast_to = to;
	E.tree_type = to;
	E.expr_cast_implicit = implicit;
	E.f_str = str_expr_cast;
	mutate_expr_cast(&E);
}

static type *ity(int slot, enum type_primitive p, int q)
{
	return q ? vf_qtype(slot, p) : vf_type(slot, p);
}

void harness(void)
{
	static const consty kz;
	consty kin, k;
	VF_INIT();
	vf_types_init();
	kin = kz;
	cc1_fopt.signed_char = 1;
#ifdef FSIGNED
	cc1_fopt.cast_w_builtin_types = 0;
#else
	cc1_fopt.cast_w_builtin_types = 1;
#endif

#if defined CASE_II
	{
		/* integer to integer */
		enum type_primitive a = vf_in_intprim(), b = vf_in_intprim();
		vf_u64 v = vf_in(), want;
		int impl = vf_inb();
		vf_assume(sp_rep(v, a));
		kin.type = CONST_NUM;
		kin.bits.num.val.i = v;
		mk(ity(0, a, QF), kin, ity(1, b, QT), impl);
		E.f_const_fold(&E, &k);
		want = b == type__Bool ? v != 0 : sp_conv(v, b);
		vf_assert(k.type == CONST_NUM && K_INTEGRAL(k.bits.num), "an integer constant converted to an integer type is an integer constant");
		vf_assert(k.bits.num.val.i == want, "the conversion keeps the value modulo 2^N, and _Bool is 0 or 1");
		vf_assert(impl || !vf_g.nwarn, "an explicit cast isn't warned about");
		vf_assert(sp_val(want, b) != sp_val(v, a) || (b == type__Bool) || !vf_g.nwarn || sp_size(b) < sp_size(a), "a widening conversion that keeps the value isn't warned about");
		vf_cover(want != v, "value changes");
	}
#elif defined CASE_IF
	{
		/* integer to floating: nearest value of the type */
		enum type_primitive a = vf_in_intprim();
		vf_u64 v = vf_in();
		floating_t want;
		vf_assume(sp_rep(v, a));
		kin.type = CONST_NUM;
		kin.bits.num.val.i = v;
		mk(ity(0, a, QF), kin, ity(1, TO, QT), vf_inb());
		E.f_const_fold(&E, &k);
		want = sp_signed(a) ? (floating_t)(vf_s64)v : (floating_t)v;
		want = TO == type_float ? (float)want : TO == type_double ? (double)want : want;
		vf_assert(k.type == CONST_NUM && K_FLOATING(k.bits.num), "an integer constant converted to a floating type is a floating constant");
		vf_assert(k.bits.num.val.f == want, "its value is the nearest one of the type");
		vf_assert((k.bits.num.suffix & VAL_FLOATING) == (TO == type_float ? VAL_FLOAT : TO == type_double ? VAL_DOUBLE : VAL_LDOUBLE), "its kind is the one of the type");
		vf_cover(want < 0, "negative");
	}
#elif defined CASE_FI
	{
		/* floating to integer: the value without its fraction, when that fits.
		 * Every double of magnitude below 2^63 */
		enum type_primitive b = vf_in_intprim();
		union { vf_u64 u; double d; } x;
		int neg;
		x.u = vf_in();
		vf_assume(x.d > -9223372036854775808.0 && x.d < 9223372036854775808.0);
		kin.type = CONST_NUM;
		kin.bits.num.val.f = x.d;
		kin.bits.num.suffix = FROM == type_float ? VAL_FLOAT : FROM == type_double ? VAL_DOUBLE : VAL_LDOUBLE;
		mk(ity(0, FROM, QF), kin, ity(1, b, QT), vf_inb());
		vf_assume(b == type__Bool || sp_fits((vf_s64)x.d, b));
		(void)neg;
		E.f_const_fold(&E, &k);
		vf_assert(k.type == CONST_NUM && K_INTEGRAL(k.bits.num), "a floating constant converted to an integer type is an integer constant");
		if(b == type__Bool)
			vf_assert(k.bits.num.val.i == (x.d != 0), "_Bool is 0 or 1");
		else
			vf_assert(k.bits.num.val.i == (vf_u64)(vf_s64)x.d, "the fraction is dropped");
		vf_cover(x.d < 0 && k.bits.num.val.i, "negative");
	}
#elif defined CASE_FF
	{
		enum { FR = FROM };
		union { vf_u64 u; double d; } x;
		floating_t want;
		x.u = vf_in();
		vf_assume(x.d == x.d);
		kin.type = CONST_NUM;
		kin.bits.num.val.f = x.d;
		kin.bits.num.suffix = FROM == type_float ? VAL_FLOAT : FROM == type_double ? VAL_DOUBLE : VAL_LDOUBLE;
		mk(ity(0, FROM, QF), kin, ity(1, TO, QT), vf_inb());
		E.f_const_fold(&E, &k);
		want = TO == type_float ? (floating_t)(float)x.d : (floating_t)x.d;
		vf_assert(k.type == CONST_NUM && k.bits.num.val.f == want, "a floating constant is rounded to the type it's converted to");
		vf_assert((k.bits.num.suffix & VAL_FLOATING) == (TO == type_float ? VAL_FLOAT : TO == type_double ? VAL_DOUBLE : VAL_LDOUBLE), "its kind is the one of the type");
		vf_cover(1, "reached");
	}
#elif defined CASE_IP
	{
		/* integer to pointer */
		enum type_primitive a = vf_in_intprim();
		vf_u64 v = vf_in();
		vf_assume(sp_rep(v, a));
		kin.type = CONST_NUM;
		kin.bits.num.val.i = v;
		mk(ity(0, a, QF), kin, vf_ptrto(2, vf_type(2, type_int)), vf_inb());
		E.f_const_fold(&E, &k);
		vf_assert(k.type == CONST_ADDR && k.bits.addr.lbl_type == CONST_LBL_MEMADDR, "an integer constant converted to a pointer is a numeric address");
		vf_assert(k.bits.addr.bits.memaddr + k.offset == v, "of the same value");
		vf_cover(1, "reached");
	}
#elif defined CASE_P
	{
		/* address (kind LK) to integer or pointer.
		 * LK: 0 numeric, 1 label, 2 weak label, 3 string, 4 contents of a numeric address, 5 contents of a label */
		enum type_primitive b = vf_in_intprim();
		vf_u64 v = vf_in(), off = vf_in(), addr;
		int toptr = TOPTR;
		type *pt = vf_ptrto(2, vf_type(2, type_int));
		type *to = toptr ? vf_ptrto(3, vf_type(3, type_nchar)) : ity(1, b, QT);
		lit_s.lbl = (char *)lbl_a;
		lit_at.lit = &lit_s;
		kin.type = LK == 3 ? CONST_STRK : LK >= 4 ? CONST_NEED_ADDR : CONST_ADDR;
		kin.offset = off;
		if(LK == 3) kin.bits.str = &lit_at;
		else{
			kin.bits.addr.lbl_type = LK == 0 || LK == 4 ? CONST_LBL_MEMADDR : LK == 2 ? CONST_LBL_WEAK : CONST_LBL_TRUE;
			if(LK == 0 || LK == 4) kin.bits.addr.bits.memaddr = v; else kin.bits.addr.bits.lbl = lbl_a;
		}
		addr = v + off;
		mk(pt, kin, to, vf_inb());
		E.f_const_fold(&E, &k);
		if(LK >= 4){
			vf_assert(k.type == CONST_NO || (toptr || sp_size(b) == 8) && k.type == CONST_NEED_ADDR, "the contents of an object aren't a constant");
			vf_assert(k.type == CONST_NO || k.bits.addr.lbl_type == kin.bits.addr.lbl_type && k.offset == (vf_s64)off, "the object whose contents are converted stays the same");
		}else if(LK == 0){
			if(toptr){
				vf_assert(k.type == CONST_ADDR && k.bits.addr.lbl_type == CONST_LBL_MEMADDR && k.bits.addr.bits.memaddr + k.offset == addr,
					"a numeric address keeps its value when converted to another pointer type");
			}else{
				vf_assert(k.type == CONST_NUM || k.type == CONST_NO, "a numeric address converted to an integer is a number");
				vf_assert(sp_size(b) < 8 || k.type == CONST_NUM, "a numeric address converted to a 64-bit integer is a constant");
				if(k.type == CONST_NUM){
					vf_assert(K_INTEGRAL(k.bits.num) && k.offset == 0, "of an integer type");
					vf_assert(k.bits.num.val.i == (b == type__Bool ? addr != 0 : sp_conv(addr, b)), "a numeric address converted to an integer is converted modulo 2^N");
				}
			}
		}else{
			if(toptr || sp_size(b) == 8)
				vf_assert(k.type == kin.type && k.offset == (vf_s64)off && (LK == 3 ? k.bits.str == &lit_at : k.bits.addr.lbl_type == kin.bits.addr.lbl_type && k.bits.addr.bits.lbl == lbl_a),
					"an object's address stays that address in a type that can hold it");
			else
				vf_assert(k.type == CONST_NO, "an object's address isn't a constant of a type that can't hold it");
		}
		vf_cover(1, "reached");
	}
#endif
}
