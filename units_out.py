from vfdrv import Z3, KISSAT
from units import prop, U, INTS, TYPES

# ---------------------------------------------------------------- C16 out_op
OUTL = ['cc1/op.c', 'cc1/num.c', 'cc1/sue.c', 'util/math.c'] + TYPES
OPF = ['out_op', 'fill_if_type', 'try_mem_offset', 'const_is_noop', 'try_const_fold', 'apply_ptr_step', 'try_shift_conv', 'try_trunc_conv', 'calc_ptr_step', 'is_val_ptr', 'consume_one', 'ispow2', 'log2ll']
DROP = ['type_nav_btype', 'type_ptr_to', 'const_op_exec']
def cases(cs): return 'CASES=' + ' '.join('X(%d,%d)' % c for c in cs)
def oop(name, o, cs, mode=0, prim='', primr='', pto='int', cf=None, **k):
    return U('out_op:' + name, 'out_op.c', 'out_op', plain=True, unwind=66, checks=[], link=OUTL, drop=DROP, functions=OPF, objbits=12,
             defs=['OP=op_' + o, cases(cs), 'MODE=%d' % mode, 'PTO=type_' + pto] + ([] if cf is None else ['CF=%d' % cf]) + ['PRIM=type_' + prim] * bool(prim) + ['PRIMR=type_' + primr] * bool(primr), **k)
ALLINT = 'nchar schar uchar short ushort int uint long ulong llong ullong'.split()
QI = {'int', 'uint', 'long', 'ulong'}
def tier(p, quick=QI): return dict(only=None if p in quick else 'thorough')
ALLOPS = 'plus minus and or xor shiftl shiftr multiply divide modulus eq lt'.split()
# kinds: 0 constant, 1 register with an offset, 2 label, 3 memory, 4 spilt, 5 flag
KP = [(0, 1), (1, 0), (1, 1), (0, 3), (3, 0), (0, 4), (4, 0), (0, 5), (5, 0), (3, 5)]
U16 = []
for o in ALLOPS:
    z = dict(solver=Z3) if o in ('plus', 'minus') else {}
    s1 = [c for c in KP if not ((o == 'plus' and c in ((0, 1), (1, 0))) or (o == 'minus' and c == (1, 0)))]
    U16 += [oop('%s-%d' % (o, i), o, s1[i::3], **z) for i in range(3)]
    for p in ALLINT:
        for r in (('int', 'ullong', 'uchar') if 'shift' in o else ['']):
            U16 += [oop('%s-const-%s%s' % (o, p, '-' + r if r else ''), o, [(0, 0)], prim=p, primr=r, **tier(p if r in ('', 'int') else ''))]
for p in ALLINT:
    U16 += [oop('plus-offset-' + p, 'plus', [(0, 1), (1, 0)], prim=p, solver=Z3, **tier(p)), oop('minus-offset-' + p, 'minus', [(1, 0)], prim=p, solver=Z3, **tier(p))]
for p in 'uchar ushort uint ulong ullong'.split():
    for o, cs in (('multiply', [(0, 1), (1, 0), (0, 3)]), ('divide', [(1, 0), (3, 0)]), ('modulus', [(1, 0), (3, 0)])):
        U16 += [oop('%s-pow2-%s' % (o, p), o, cs, 1, prim=p, **tier(p))]
for p in ('int', 'nchar', 'void', 'long'):
    t = tier(p, ('int', 'nchar'))
    for l in (0, 1, 2, 3, 4):
        U16 += [oop('plus-ptr-%s-%d' % (p, l), 'plus', [(l, r) for r in (0, 1, 3, 4)], 2, pto=p, solver=Z3, **t)]
        if l:
            U16 += [oop('minus-ptr-%s-%d' % (p, l), 'minus', [(l, r) for r in (0, 1, 3)], 2, pto=p, solver=Z3, **t),
                    oop('minus-ptrs-%s-%d' % (p, l), 'minus', [(l, r) for r in (1, 3, 0)], 4, pto=p, solver=Z3, **t)]
        if l != 2:
            U16 += [oop('plus-rptr-%s-%d-cf%d' % (p, l, cf), 'plus', [(l, r) for r in (1, 2, 3)], 3, pto=p, cf=cf, solver=Z3, **t) for cf in (0, 1)]
    U16 += [oop('eq-ptrs-' + p, 'eq', [(1, 2), (3, 1)], 4, pto=p, **t), oop('lt-ptrs-' + p, 'lt', [(3, 1), (4, 2)], 4, pto=p, **t)]
for o in ('plus', 'minus', 'bnot', 'not'):
    for p in ALLINT:
        U16 += [U('out_op_unary:%s-%s' % (o, p), 'out_op.c', 'out_op_unary', plain=True, unwind=66, checks=[], link=OUTL, drop=DROP, functions=['out_op_unary'],
                  defs=['OP=op_' + o, cases([(k, 0) for k in (0, 1, 3, 4)] + [(5, 0)] * (p == 'int')), 'MODE=5', 'PRIM=type_' + p], **tier(p))]

def ocast(name, cs, p, pf, pt, **k):
    return U('out_cast:' + name, 'out_cast.c', 'out_cast', plain=True, unwind=30, checks=[], link=['cc1/out/asm.c', 'cc1/out/x86_64.c'] + OUTL[:4] + TYPES,
             drop=['type_to_str', 'type_to_str_r', 'type_cmp', 'impl_cast_load', 'impl_comment'], objbits=12,
             defs=[cases(cs), 'PRIM=type_' + p, 'PTRFROM=%d' % pf, 'PTRTO=%d' % pt], functions=['out_cast', 'out_normalise', 'integral_truncate', 'integral_truncate_bits', 'asm_type_size', 'asm_table_lookup'], **k)
for p in ['_Bool'] + ALLINT:
    t = tier(p, QI | {'schar', 'ushort'})
    U16 += [ocast(p, [(k, 0) for k in range(5)] + [(5, 0)] * (p == 'int'), p, 0, 0, **t), ocast(p + '-norm', [(k, 1) for k in range(5)], p, 0, 0, **t), ocast(p + '-ptr', [(k, 0) for k in range(5)], p, 0, 1, **t)]
U16 += [ocast('ptr', [(k, 0) for k in range(5)], 'long', 1, 0), ocast('ptr-norm', [(k, 1) for k in range(5)], 'long', 1, 0)]

prop('C16', 'Code generation folds and simplifies operators without changing their value',
     'Whatever integer or pointer operands an operator has when its code is generated - constants, registers with a pending offset, labels, memory or CPU flags - folding it, dropping a no-op constant, absorbing a constant '
     'into an address, scaling a pointer operand or replacing a multiply, divide or modulus by a shift or mask leaves the value C defines for those operands, whichever optimisations are on. '
     'A unary operator and a conversion between integer or pointer types give the value C defines too, and a constant result is a value of its type.',
     ['inputs', 'programs'], 'every binary operator class, every pair of operand kinds, every integer type, all 64-bit values and offsets, both settings of the folding options; pointers to objects of 1, 4 and 8 bytes and to void',
     'Each simplification fires only for particular operand kinds and constants (a pending register offset, a pointer constant on the left, a power of two of an unsigned type), in combinations the run-time tests do not enumerate.',
     ['src/cc1/out/op.c', 'src/cc1/out/out.c', 'src/util/math.c'],
     [('out_op, out_op_unary, try_mem_offset, const_is_noop, apply_ptr_step, try_shift_conv, try_trunc_conv', 'src/cc1/out/op.c'), ('out_cast, out_normalise', 'src/cc1/out/out.c'), ('ispow2, log2ll', 'src/util/math.c')],
     U16,
     'out_op, out_op_unary and out_cast proved over a ghost model of what an operand denotes (its register, label, memory or flag contents plus the pending offset, or its constant): the result denotes the operator applied to them. '
     'One unit per operator and kinds of operands; instruction emission is by stand-in. The quick tier takes four of the integer types and two of the pointed-to types, the thorough tier all.',
     assumptions=['impl_op, impl_op_unary, impl_cast_load and v_to_reg (the instruction emitters) are assumed to compute the operator they are asked for; C20 covers part of them',
      'const_op_exec is replaced by its contract (proved in C01)',
      'a constant operand is a value of its type (established by constant folding: C01, C02)',
      'a multiply, divide or modulus that is not simplified is handed on with the same operands (checked), so its value is left uninterpreted',
      'variable-length array steps and the sanitizers are left out'])
