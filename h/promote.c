/* Typing of operator nodes: integer promotions and usual arithmetic
 * conversions (C99 6.3.1.1, 6.3.1.8, 6.5.x).  The node's fold function is the
 * real one; inserting a cast is by stand-in: a node of the target type. */
#include "vf.h"
#include "cc1/ops/ops.h"
#include "cc1/ops/expr_op.h"
#include "cc1/ops/expr_if.h"
#include "cc1/ops/expr_assign_compound.h"
#include "cc1/ops/expr_cast.h"
#include "cc1/type_nav.h"
#include "cc1/type_is.h"
#include "cc1/sue.h"
#include "cc1/fold.h"
#include "cc1/fopt.h"
#include "types.h"
#include "diag.h"

#define PRIMS(X) X(void) X(_Bool) X(nchar) X(schar) X(uchar) X(int) X(uint) X(short) X(ushort) X(long) X(ulong) X(llong) X(ullong) \
	X(float) X(double) X(ldouble) X(enum)
#define X(p) static btype bt_##p; static type ty_##p;
PRIMS(X)
#undef X
static struct_union_enum_st enu;

static type *prim_type(enum type_primitive p)
{
	switch(p){
#define X(n) case type_##n: return &ty_##n;
PRIMS(X)
#undef X
		default: return 0;
	}
}

/* ---- stand-ins */
static expr *pool0, *pool1, *pool2, *pool3;
static int npool;
/* the nodes of one case */
#define NODES expr E, L, R, p0, p1, p2, p3; \
	npool = 0; pool0 = &p0; pool1 = &p1; pool2 = &p2; pool3 = &p3; vf_init_expr(&E); (void)R

type *type_nav_btype(struct type_nav *n, enum type_primitive p) { (void)n; return prim_type(p); }

expr *expr_new_cast(expr *what, type *to, int implicit)
{
	
	expr *e = 0;
	switch(npool++){
		case 0: e = pool0; break; case 1: e = pool1; break; case 2: e = pool2; break;
		case 3: e = pool3; break;
	}
	vf_assert(e != 0, "each operand is converted at most twice");
	vf_init_expr(e);
	e->f_str = str_expr_cast;
	e->expr = what;
	e->bits.cast_to = to;
	e->expr_cast_implicit = implicit;
	return e;
}
void fold_expr_cast_descend(expr *e, symtable *s, int d) { (void)s; (void)d; e->tree_type = e->bits.cast_to; }
void fold_insert_casts(type *t, expr **pe, symtable *s) { *pe = expr_new_cast(*pe, t, 1); fold_expr_cast_descend(*pe, s, 0); }
expr *fold_expr_lval2rval(expr *e, symtable *s) { (void)s; return e; }
expr *fold_expr_nonstructdecay(expr *e, symtable *s) { (void)s; return e; }
void fold_expr_nodecay(expr *e, symtable *s) { (void)e; (void)s; }
int fold_check_expr(const expr *e, enum fold_chk c, const char *d) { (void)e; (void)c; (void)d; return 0; }
int fold_type_chk_warn(expr *l, type *tl, expr *r, int cmp, where *w, const char *d)
{
	(void)l; (void)tl; (void)r; (void)cmp; (void)w; (void)d;
	return 1;
}
sym *fold_inc_writes_if_sym(expr *e, symtable *s) { (void)e; (void)s; return 0; }
void fold_check_restrict(expr *a, expr *b, const char *d, where *w) { (void)a; (void)b; (void)d; (void)w; }
int expr_must_lvalue(expr *e, const char *d) { (void)e; (void)d; return 1; }
void expr_assign_const_check(expr *e, where *w) { (void)e; (void)w; }
type *type_unqualify(type *t) { return t; }
const char *type_to_str(type *t) { (void)t; return ""; }
const char *type_to_str_r(char b[TYPE_STATIC_BUFSIZ], type *t) { (void)b; (void)t; return ""; }
void const_fold(expr *e, consty *k) { (void)e; k->type = CONST_NO; k->nonconst = e; }


/* ---- C's rules */
static enum type_primitive sp_prom(enum type_primitive p)
{
	switch(p){
		case type__Bool: case type_nchar: case type_schar: case type_uchar: case type_short: case type_ushort: return type_int;
		default: return p;
	}
}
static int sp_fp(enum type_primitive p) { return p == type_float ? 1 : p == type_double ? 2 : p == type_ldouble ? 3 : 0; }
static enum type_primitive sp_uns(enum type_primitive p)
{
	return p == type_int ? type_uint : p == type_long ? type_ulong : p == type_llong ? type_ullong : p;
}
static enum type_primitive sp_common(enum type_primitive a, enum type_primitive b)
{
	enum type_primitive s, u;
	if(sp_fp(a) || sp_fp(b)) return sp_fp(a) >= sp_fp(b) ? a : b;
	a = sp_prom(a); b = sp_prom(b);
	if(a == b) return a;
	/* the enumerated types here are compatible with unsigned int */
	if(a == type_enum) a = type_uint;
	if(b == type_enum) b = type_uint;
	if(a == b) return a;
	if(sp_signed(a) == sp_signed(b)) return sp_rank(a) > sp_rank(b) ? a : b;
	u = sp_signed(a) ? b : a; s = sp_signed(a) ? a : b;
	if(sp_rank(u) >= sp_rank(s)) return u;
	if(sp_size(s) > sp_size(u)) return s;
	return sp_uns(s);
}

static expr *mk_leaf(expr *e, type *t)
{
	
	vf_init_expr(e);
	e->tree_type = t;
	e->f_str = str_expr_if; /* none of the kinds that are looked for */
	return e;
}
static enum type_primitive prim_of(type *t)
{
	return t && t->type == type_btype ? t->bits.type->primitive : type_unknown;
}

/* which of int and unsigned int an enumerated type is compatible with is the
 * implementation's choice */
static int same(type *t, enum type_primitive want, enum type_primitive a, enum type_primitive b)
{
	const enum type_primitive p = prim_of(t);
	if((a == type_enum || b == type_enum) && (want == type_enum || want == type_int || want == type_uint))
		return p == type_enum || p == type_int || p == type_uint;
	return p == want;
}

static void one(enum type_primitive a, enum type_primitive b, enum op_type op)
{
	const enum type_primitive com = sp_common(a, b);
	type *ta = prim_type(a), *tb = prim_type(b);
	int shift = op == op_shiftl || op == op_shiftr;
	int cmp = op == op_eq || op == op_ne || op == op_lt || op == op_gt || op == op_le || op == op_ge;
	int sc = op == op_andsc || op == op_orsc;
	int intonly = shift || op == op_modulus || op == op_and || op == op_or || op == op_xor;
	if(intonly && (sp_fp(a) || sp_fp(b)))
		return;
	{
	NODES;
	mk_leaf(&L, ta);
	mk_leaf(&R, tb);
	E.lhs = &L;
	E.rhs = &R;
	E.bits.op.op = op;
#if FORM == 0
	{
		fold_expr_op(&E, 0);
		vf_assert(same(E.tree_type, cmp || sc ? type_int : shift ? sp_prom(a) : com, a, b), "an operator's result has the type C gives it");
		if(shift){
			vf_assert(same(E.lhs->tree_type, sp_prom(a), a, b), "a shift is done in the promoted type of its left operand");
			vf_assert(same(E.rhs->tree_type, sp_prom(b), a, b), "a shift count is promoted");
		}else if(!sc){
			vf_assert(same(E.lhs->tree_type, com, a, b) && same(E.rhs->tree_type, com, a, b), "operands are converted to their common type");
		}
	}
#else
	{
		type *up;
		E.bits.compoundop.op = op;
		E.bits.compoundop.upcast_ty = 0;
		fold_expr_assign_compound(&E, 0);
		up = E.bits.compoundop.upcast_ty ? E.bits.compoundop.upcast_ty : ta;
		vf_assert(prim_of(E.tree_type) == a, "a compound assignment has the type of its left operand");
		vf_assert(E.lhs == &L, "a compound assignment assigns to its left operand");
		if(shift){
			vf_assert(same(up, sp_prom(a), a, b), "a shift assignment is done in the promoted type of its left operand");
			vf_assert(same(E.rhs->tree_type, sp_prom(b), a, b), "a shift count is promoted");
		}else
			vf_assert(same(up, com, a, b) && same(E.rhs->tree_type, com, a, b), "a compound assignment is done in the common type of its operands");
	}
#endif
	}
}

static void init(void)
{
#define X(n) vf_mk_b(&ty_##n, &bt_##n, type_##n);
	PRIMS(X)
#undef X
	bt_enum.sue = &enu;
	VF_INIT();
	vf_types_init();
	enu.primitive = type_enum;
	enu.size = 4; enu.align = 4;
	enu.membs_progress = SUE_MEMBS_COMPLETE;
	enu.foldprog = SUE_FOLDED_FULLY;
	cc1_fopt.signed_char = 1;
	cc1_std = STD_C99;
}

void harness(void)
{
	static const enum type_primitive ps[] = { type__Bool, type_nchar, type_schar, type_uchar, type_int, type_uint, type_short, type_ushort,
		type_long, type_ulong, type_llong, type_ullong, type_float, type_double, type_ldouble, type_enum };
	static const enum op_type ops[] = { op_multiply, op_divide, op_modulus, op_plus, op_minus, op_xor, op_or, op_and, op_shiftl, op_shiftr,
		op_eq, op_ne, op_le, op_lt, op_ge, op_gt, op_andsc, op_orsc };
	unsigned i, j;
	init();
#if FORM <= 1
	for(i = 0; i < 16; i++)
		for(j = 0; j < (FORM ? 10 : 18); j++)
			one(LHS, ps[i], ops[j]);
#elif FORM == 2
	/* c ? a : b and a ?: b */
	for(i = 0; i < 16; i++){
		for(j = 0; j < 2; j++){
			
			const enum type_primitive b = ps[i], com = sp_common(LHS, b);
			NODES;
			expr C;
			mk_leaf(&L, prim_type(LHS));
			mk_leaf(&R, prim_type(b));
			mk_leaf(&C, prim_type(type_long));
					E.expr = j ? &L : &C;
			E.lhs = j ? 0 : &L;
			E.rhs = &R;
			fold_expr_if(&E, 0);
			vf_assert(same(E.tree_type, com, LHS, b), "the conditional operator has the common type of its operands");
			vf_assert(same((j ? E.expr : E.lhs)->tree_type, com, LHS, b) && same(E.rhs->tree_type, com, LHS, b), "its operands are converted to it");
			vf_assert(j || E.expr == &C, "the condition is kept");
		}
	}
#elif FORM == 3
	/* unary operators, default argument promotions */
	for(i = 0; i < 16; i++){
		static const enum op_type un[] = { op_plus, op_minus, op_bnot, op_not };
		
		expr *arg;
		for(j = 0; j < 4; j++){
			if(un[j] == op_bnot && sp_fp(ps[i])) continue;
			{
			NODES;
			mk_leaf(&L, prim_type(ps[i]));
					E.lhs = &L;
			E.bits.op.op = un[j];
			fold_expr_op(&E, 0);
			vf_assert(prim_of(E.tree_type) == (un[j] == op_not ? type_int : sp_prom(ps[i])), "a unary operator's result has the promoted type, ! that of int");
			vf_assert(un[j] == op_not || prim_of(E.lhs->tree_type) == sp_prom(ps[i]), "a unary operator's operand is promoted");
			}
		}
		{
		NODES;
		arg = mk_leaf(&L, prim_type(ps[i]));
		expr_promote_default(&arg, 0);
		vf_assert(prim_of(arg->tree_type) == (ps[i] == type_float ? type_double : sp_prom(ps[i])), "an argument without a parameter gets the default promotions");
		}
	}
#elif FORM == 4
	/* pointers and integers */
	{
		type *pt = vf_ptrto(0, prim_type(type_int));
		
		for(i = 0; i < 12; i++){
			for(j = 0; j < 3; j++){
				{
				NODES;
				E.lhs = mk_leaf(&L, j == 1 ? prim_type(ps[i]) : pt);
				E.rhs = mk_leaf(&R, j == 1 ? pt : prim_type(ps[i]));
				E.bits.op.op = j == 2 ? op_minus : op_plus;
				fold_expr_op(&E, 0);
				vf_assert(E.tree_type == pt, "a pointer plus or minus an integer has the pointer's type");
				vf_assert((j == 1 ? E.rhs : E.lhs)->tree_type == pt && prim_of((j == 1 ? E.lhs : E.rhs)->tree_type) == type_long, "the integer added to a pointer is as wide as it");
				}
				if(j == 1) continue;
				{
				NODES;
				E.lhs = mk_leaf(&L, pt);
				E.rhs = mk_leaf(&R, prim_type(ps[i]));
				E.bits.compoundop.upcast_ty = 0;
				E.bits.compoundop.op = j == 2 ? op_minus : op_plus;
				fold_expr_assign_compound(&E, 0);
				vf_assert(E.tree_type == pt && E.lhs == &L && !E.bits.compoundop.upcast_ty && prim_of(E.rhs->tree_type) == type_long,
					"a pointer stepped by an integer stays a pointer");
				}
			}
		}
		for(j = 0; j < 9; j++){
			static const enum op_type po[] = { op_minus, op_eq, op_ne, op_lt, op_gt, op_le, op_ge, op_andsc, op_orsc };
			NODES;
			E.lhs = mk_leaf(&L, pt);
			E.rhs = mk_leaf(&R, pt);
			E.bits.op.op = po[j];
			fold_expr_op(&E, 0);
			vf_assert(prim_of(E.tree_type) == (j ? type_int : type_long), "pointer difference is ptrdiff_t, a comparison of pointers is int");
			vf_assert(type_is_ptr(E.lhs->tree_type) && type_is_ptr(E.rhs->tree_type), "pointers are subtracted and compared as pointers");
		}
	}
#endif
	vf_cover(1, "reached");
}
