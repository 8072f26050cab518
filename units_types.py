from vfdrv import Z3, KISSAT
from units import prop, U, INTS, TYPES

# ---------------------------------------------------------------- C03 usual arithmetic conversions
PR = '_Bool nchar schar uchar int uint short ushort long ulong llong ullong float double ldouble enum'.split()
def promo(name, form, lhs='int', **k):
    return U('promote:' + name, 'promote.c', 'fold of an operator node', plain=True, unwind=20, defs=['FORM=%d' % form, 'LHS=type_' + lhs], checks=[], objbits=13, timeout=200,
             link=['cc1/ops/expr_op.c', 'cc1/ops/expr_if.c', 'cc1/ops/expr_assign_compound.c', 'cc1/const.c', 'cc1/num.c', 'cc1/sue.c', 'cc1/op.c', 'cc1/type_nav.c', 'cc1/ops/expr_cast.c', 'cc1/expr.c'] + TYPES,
             drop=['type_unqualify', 'type_nav_btype', 'const_fold', 'expr_new_cast', 'fold_expr_cast_descend', 'expr_must_lvalue', 'type_to_str', 'type_to_str_r'],
             functions=['fold_expr_op', 'fold_expr_if', 'fold_expr_assign_compound', 'op_required_promotion', 'op_promote_types', 'expr_promote_if_smaller',
                        'type_is_promotable', 'type_intrank', 'type_size', 'type_is_signed', 'type_sign', 'expr_promote_default'], **k)

prop('C03', 'Operators are done in the type C prescribes',
     'For every operator and every pair of arithmetic operand types, the operation is carried out in, and its result has, the type given by the integer promotions and the usual arithmetic conversions; '
     'this covers unary operators, binary operators, shifts, comparisons, ?: and compound assignment, default argument promotions, and pointer arithmetic (bit-field operands aside).',
     ['programs'], 'every operator, every pair of arithmetic types (and pointer with every integer type)',
     'The tests use mostly int operands; sub-int and mixed-sign combinations (short /= int, ?: between unsigned short and int) were wrong with all tests passing.',
     ['src/cc1/ops/expr_op.c', 'src/cc1/ops/expr_if.c', 'src/cc1/ops/expr_assign_compound.c', 'src/cc1/type_is.c', 'src/cc1/btype.c'],
     [('op_required_promotion, fold_expr_op', 'src/cc1/ops/expr_op.c'), ('fold_expr_if', 'src/cc1/ops/expr_if.c'), ('fold_expr_assign_compound', 'src/cc1/ops/expr_assign_compound.c'), ('type_is_promotable', 'src/cc1/type_is.c')],
     [promo('binary-' + p, 0, p) for p in PR] + [promo('compound-' + p, 1, p) for p in PR if p != '_'] + [promo('cond-' + p, 2, p) for p in PR]
     + [promo('unary', 3), promo('pointer', 4)],
     'the fold functions of operator nodes proved against C99 6.3.1.1/6.3.1.8 for the whole finite domain of types and operators. Inserting a conversion node, decay of lvalues and constraint diagnostics are by stand-in. '
     'Enumerated types are taken as compatible with unsigned int, the choice this compiler makes.',
     assumptions=['stand-ins: expr_new_cast/fold_expr_cast_descend/fold_insert_casts produce a node of the target type; operands are already folded and valid'])
