from vfdrv import Z3, KISSAT
from units import prop, U, INTS, TYPES

# ---------------------------------------------------------------- C01 constant operators
CONST_LINK = ['cc1/num.c', 'cc1/op.c'] + TYPES

def const_op(name, ops, unary=0):
    ops = ops.split()
    return U('const_op_exec:' + name, 'const_op_exec.c', 'const_op_exec',
             defs=(['OP1=op_' + ops[0]] if len(ops) == 1 else ['OPS=' + ','.join('op_' + o for o in ops)]) + ['UNARY'] * unary,
             link=CONST_LINK, unwind=12,
             functions=['const_op_exec', 'integral_truncate', 'integral_truncate_bits', 'type_is_signed', 'btype_is_signed',
                        'type_size', 'btype_size', 'type_primitive_size'])

def eop(name, *defs, **k):
    return U('expr_op:' + name, 'expr_op_const.c', 'const_fold of an operator node', plain=True, unwind=12, defs=list(defs), checks=[],
             link=['cc1/const.c', 'cc1/op.c', 'cc1/num.c', 'cc1/sue.c'] + TYPES, drop=['const_op_exec'],
             functions=['const_fold', 'const_fold_no', 'fold_const_expr_op', 'const_op_num', 'const_op_num_int', 'collapse_const', 'collapsed_consty_to_truth',
                        'eval_shortcircuit', 'eval_truth_to_consty', 'const_shortcircuit', 'op_is_comparison'], **k)

prop('C01', 'Folded integer operators give the value C defines',
     'Whenever the compiler evaluates an integer operator (arithmetic, bitwise, shift, relational, equality, logical, unary) on constant operands, for any operand values and any integer type, '
     'the folded value is the one the C standard gives for operands of that type - unsigned results wrap modulo 2^N - and a division or modulus by zero is diagnosed and never folded. '
     '&& and || fold only when decided by their left operand, or by both, and ?: to the operand a constant condition picks. '
     'Adding or subtracting an integer to a constant address scales by the size of the pointed-to type, and differences and equality of constant addresses count elements and compare object and offset.',
     ['inputs', 'programs'], 'every operator, every pair of 64-bit operand values, every promoted integer type; every kind of constant operand (number, numeric address, label, weak label, string, non-constant)',
     'The tests fold a few dozen hand-picked values; the guarantee is over all 2^128 operand pairs and all types, and folding bugs show up only for particular signs and widths.',
     ['src/cc1/const.c', 'src/cc1/ops/expr_op.c', 'src/cc1/num.c', 'src/cc1/type_is.c', 'src/cc1/btype.c'],
     [('const_op_exec', 'src/cc1/const.c'), ('fold_const_expr_op, const_op_num_int, eval_shortcircuit', 'src/cc1/ops/expr_op.c'), ('integral_truncate', 'src/cc1/num.c')],
     [const_op('addsub', 'plus minus'), const_op('unary', 'plus minus bnot not', unary=1), const_op('bitwise', 'and or xor'),
      const_op('shift', 'shiftl shiftr'), const_op('compare', 'eq ne lt le gt ge andsc orsc')]
     + [U('const_op_exec:%s-%s' % (o, p), 'const_op_exec.c', 'const_op_exec',
          defs=['OP1=op_' + o, 'PRIM=type_' + p, 'VF_NOCOVER'], plain=True, link=['cc1/num.c', 'util/platform.c'],
          unwind=12, checks=['div-by-zero'], solver=['--z3', '--slice-formula'], functions=['const_op_exec'], timeout=100)
        for o in ('multiply', 'divide', 'modulus') for p in INTS]
     + [eop('binary', 'CASE_INT', 'UNARYV=0'), eop('unary', 'CASE_INT', 'UNARYV=1')]
     + [eop('%s-%d' % (o, k), 'CASE_SC', 'SCOP=op_' + o, 'LK=%d' % k) for o in ('andsc', 'orsc') for k in range(7)]
     + [eop('address-%s-%d' % (n, lk), 'CASE_PTR', 'FORM=%d' % f, 'WHICH=0', 'LK=%d' % lk, 'RK=0', 'VF_NOCOVER', solver=Z3) for n, f in
        (('add', 0), ('add-rev', 1), ('sub', 2)) for lk in range(4)]
     + [eop('address-%s-%d-addr' % (n, lk), 'CASE_PTR', 'FORM=%d' % f, 'WHICH=0', 'LK=%d' % lk, 'RK=4') for n, f in
        (('add', 0), ('add-rev', 1), ('sub', 2)) for lk in range(4) if n != 'add-rev' or not lk]
     + [eop('address-%s-%d-%d%s' % (n, lk, rk, '-same' * same), 'CASE_PTR', 'FORM=3', 'WHICH=%d' % w, 'LK=%d' % lk, 'RK=%d' % rk, 'SAMELBL=%d' % same, 'VF_NOCOVER', solver=Z3) for n, w in
        (('diff', 0), ('eq', 1), ('ne', 2)) for lk in range(4) for rk in range(4) for same in ((0, 1) if lk and rk and rk != 3 else (0,))]
     + [U('if-fold:%d%s' % (k, '-gnu' * g), 'if_const.c', 'const_fold of ?:', plain=True, unwind=12, defs=['FORM=0', 'LK=%d' % k, 'GNU=%d' % g], checks=[],
          link=['cc1/const.c', 'cc1/op.c', 'cc1/num.c', 'cc1/sue.c'] + TYPES, functions=['fold_const_expr_if', 'const_fold', 'const_fold_no']) for k in range(7) for g in (0, 1)]
     + [U('const-truth:%d%s' % (k, '-null-offset' * n), 'if_const.c', 'const_expr_and_zero, const_expr_and_non_zero', plain=True, unwind=12, defs=['FORM=1', 'LK=%d' % k, 'GNU=0', 'NULLOFF=%d' % n], checks=[],
          link=['cc1/const.c', 'cc1/op.c', 'cc1/num.c', 'cc1/sue.c'] + TYPES, functions=['const_expr_zero', 'const_expr_and_zero', 'const_expr_and_non_zero', 'const_fold']) for k in range(7) for n in ((0, 1) if k == 1 else (0,))],
     'const_op_exec proved against C99 6.5 arithmetic for every operand and promoted type; the operator node fold proved against the contract of const_op_exec. '
     'Signed overflow and out-of-range shifts are undefined in C and left unconstrained. Assumes operands were converted to their common type (C02, C03).',
     assumptions=['signed right shift of the host compiler is arithmetic (implementation-defined)'])
