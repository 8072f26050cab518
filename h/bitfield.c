/* Code generation of a bit-field's load and store: shifts and masks of the
 * word that holds it.  out_op() etc. are replaced by their contract (C16). */
#include "vf.h"
#include "cc1/out/bitfield.c"
#include "cc1/fopt.h"
#include "cc1/cc1.h"
#include "types.h"
#include "diag.h"
#include "outval.h"

static out_val *n_0, *n_1, *n_2, *n_3, *n_4, *n_5, *n_6, *n_7;
static int n_vals;
static out_val *fresh(void)
{
	switch(n_vals++){
		case 0: return n_0;
		case 1: return n_1;
		case 2: return n_2;
		case 3: return n_3;
		case 4: return n_4;
		case 5: return n_5;
		case 6: return n_6;
		case 7: return n_7;
	}
	vf_assert(0, "no more constants are made than the access needs");
	return 0;
}
static vf_u64 g_word; /* what the memory holds */
static out_val *g_mem;
out_val *out_new_l(out_ctx *o, type *t, long l)
{
	out_val *v = fresh();
	(void)o;
	gv_init(v, V_CONST_I, t, 0, (vf_u64)l, 0);
	return v;
}
const out_val *out_op(out_ctx *o, enum op_type op, const out_val *l, const out_val *r)
{
	out_val *v = (out_val *)l;
	type *t = l->t;
	unsigned sz = type_size(t, 0);
	vf_u64 b = gv_val(r);
	(void)o;
	if(op == op_shiftl || op == op_shiftr) vf_assert(sp_conv_bits(b, 8, 0) < sz * 8, "a word is shifted by less than its width");
	b = gv_eval(op, gv_val(l), b, sz, type_is_signed(t));
	gv_init(v, V_REG, t, 1 + (v == g_mem), b, 0);
	return v;
}
const out_val *out_cast(out_ctx *o, const out_val *v, type *t, int norm)
{
	vf_u64 x = sp_conv_bits(gv_val(v), type_size(v->t, 0), type_is_signed(v->t));
	(void)o;
	vf_assert(!norm, "a bit-field's value isn't normalised here");
	gv_init((out_val *)v, V_REG, t, 1 + (v == g_mem), sp_conv_bits(x, type_size(t, 0), type_is_signed(t)), 0);
	return v;
}
const out_val *out_change_type(out_ctx *o, const out_val *v, type *t) { (void)o; ((out_val *)v)->t = t; return v; }
out_val *v_mutable_copy(out_ctx *o, const out_val *v) { (void)o; return (out_val *)v; }
const out_val *out_deref(out_ctx *o, const out_val *v)
{
	type *t = type_is_ptr(v->t);
	(void)o;
	vf_assert(v == g_mem && t && !v->bitfield.nbits, "the whole word is read");
	gv_init(g_mem, V_REG, t, 2, g_word, 0);
	return v;
}
void out_comment(out_ctx *o, const char *f, ...) { (void)o; (void)f; }
type *type_ptr_to(type *t) { return vf_ptrto(7, t); }
enum type_cmp type_cmp(type *a, type *b, enum type_cmp_opts o) { (void)o; return a == b ? TYPE_EQUAL : TYPE_NOT_EQUAL; }

static vf_u64 mask(unsigned n) { return n >= 64 ? ~0ULL : (1ULL << n) - 1; }

void harness(void)
{
	out_val mem, val, n0, n1, n2, n3, n4, n5, n6, n7;
	struct vbitfield bf;
	enum type_primitive p = PRIM;
	type *t, *vt;
	unsigned sz = sp_size(p), w = sz * 8;
	vf_u64 x, got;
	const out_val *res;
	VF_INIT();
	vf_types_init();
	cc1_fopt.signed_char = 1;
	cc1_fopt.cast_w_builtin_types = 1;
	t = vf_type(0, p);
	bf.off = vf_inr(0, 63);
	bf.nbits = vf_inr(1, 64);
	vf_assume(bf.nbits <= w && bf.off <= w - bf.nbits);
	bf.master_ty = t;
	g_word = sp_conv_bits(vf_in(), sz, 0);
	n_vals = 0;
	n_0 = &n0; n_1 = &n1; n_2 = &n2; n_3 = &n3; n_4 = &n4; n_5 = &n5; n_6 = &n6; n_7 = &n7;
	g_mem = &mem;
	x = vf_in();
#if LOAD
	gv_init(&mem, V_REG, t, 2, sp_conv_bits(g_word, sz, sp_signed(p)), 0);
	res = out_bitfield_to_scalar(0, &bf, &mem);
	got = sp_conv_bits(gv_val(res), sz, sp_signed(p));
	x = (g_word >> bf.off) & mask(bf.nbits);
	if(sp_signed(p) && (x >> (bf.nbits - 1) & 1)) x |= ~mask(bf.nbits);
	vf_assert(got == x, "a bit-field reads as its own bits, extended by its type");
#else
	vt = vf_type(1, vf_in_intprim());
	gv_init(&mem, V_REG, vf_ptrto(0, t), 2, vf_in(), 0);
	mem.bitfield = bf;
	gv_init(&val, V_REG, vt, 1, x, 0);
	x = sp_conv_bits(x, type_size(vt, 0), type_is_signed(vt));
	res = out_bitfield_scalar_merge(0, &bf, &val, &mem);
	got = sp_conv_bits(gv_val(res), sz, 0);
	vf_assert((got >> bf.off & mask(bf.nbits)) == (x & mask(bf.nbits)), "a bit-field holds the low bits of the value stored");
	vf_assert(((got ^ g_word) & ~(mask(bf.nbits) << bf.off)) == 0, "a store to a bit-field leaves the other bits alone");
#endif
	vf_cover(1, "reached");
}
