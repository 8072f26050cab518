/* Type nodes for the harnesses: real `struct type` objects.  Each slot has a
 * fixed shape (so that the solver can follow the pointers) and a symbolic
 * primitive. */
#ifndef VF_TYPES_H
#define VF_TYPES_H
#include "cc1/type.h"
#include "cc1/btype.h"
#include "util/platform.h"
#include "cspec.h"

/* separate objects: CBMC mishandles a pointer to an element kept in a union
 * of an array's element */
#define VF_SLOTS(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7)
#define X(n) static btype vf_bt##n; static type vf_ty##n, vf_qty##n, vf_pty##n;
VF_SLOTS(X)
#undef X

static inline void vf_types_init(void)
{
	platform_init(ARCH_x86_64, SYS_linux);
}

static inline type *vf_mk_b(type *t, btype *b, enum type_primitive p)
{
	b->primitive = p;
	b->sue = 0;
	t->type = type_btype;
	t->ref = 0;
	t->bits.type = b;
	return t;
}

/* slot must be a constant */
static inline type *vf_type(int slot, enum type_primitive p)
{
	switch(slot){
#define X(n) case n: return vf_mk_b(&vf_ty##n, &vf_bt##n, p);
VF_SLOTS(X)
#undef X
	}
	return 0;
}

static inline type *vf_mk_q(type *t, type *to, enum type_qualifier q)
{
	t->type = type_cast;
	t->bits.cast.qual = q;
	t->ref = to;
	return t;
}

/* const-qualified */
static inline type *vf_qtype(int slot, enum type_primitive p)
{
	switch(slot){
#define X(n) case n: return vf_mk_q(&vf_qty##n, vf_type(n, p), qual_const);
VF_SLOTS(X)
#undef X
	}
	return 0;
}

static inline type *vf_ptrto(int slot, type *to)
{
	switch(slot){
#define X(n) case n: vf_pty##n.type = type_ptr; vf_pty##n.bits.ptr.decayed_from = 0; vf_pty##n.ref = to; return &vf_pty##n;
VF_SLOTS(X)
#undef X
	}
	return 0;
}

/* any integer type */
static inline enum type_primitive vf_in_intprim(void)
{
	return vf_inr(type__Bool, type_ullong);
}

/* any integer type an operator is evaluated in, after the promotions */
static inline enum type_primitive vf_in_promoted(void)
{
	enum type_primitive p = vf_inr(type_int, type_ullong);
	vf_assume(p != type_short && p != type_ushort);
	return p;
}
/* A node whose union is unconstrained rather than zero: CBMC then keeps what is
 * stored in it concrete (a union whose initial value is a constant is
 * re-encoded as its widest member at each store). */
static inline expr *vf_init_expr(expr *e) /* e: a local, not initialised */
{
#ifndef VF_CBMC
	memset(e, 0, sizeof *e);
#endif
	e->lhs = e->rhs = e->expr = 0;
	e->tree_type = 0;
	e->f_fold = 0;
	e->f_gen = 0;
	e->f_str = 0;
	e->f_islval = 0;
	e->f_has_sideeffects = 0;
	e->f_const_fold = 0;
	e->const_eval.const_folded = 0;
	e->assign_is_post = 0;
	e->assign_is_init = 0;
	e->in_parens = 0;
	e->freestanding = 0;
	e->funcargs = 0;
	e->code = 0;
	return e;
}

#endif
