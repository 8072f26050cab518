from vfdrv import Z3, KISSAT
from units import prop, U, INTS, TYPES

# ---------------------------------------------------------------- C02 constant conversions
def cast(name, *defs, **k):
    return U('cast:' + name, 'cast_const.c', 'const_fold of a cast node', plain=True, unwind=70, defs=list(defs), checks=[],
             link=['cc1/const.c', 'cc1/num.c', 'cc1/sue.c', 'cc1/op.c'] + TYPES,
             functions=['fold_const_expr_cast', 'fold_cast_num', 'convert_integral_to_integral_warn', 'check_addr_int_cast', 'cast_addr',
                        'const_ensure_num_or_memaddr', 'const_intify', 'const_memify', 'integral_truncate', 'integral_high_bit', 'type_max',
                        'warn_value_changed_at'], **k)

prop('C02', 'Constant conversions keep the value C requires',
     'Whenever the compiler converts a constant, implicitly or by a cast, the constant it obtains has the value C defines: modulo 2^N for integer types, 0 or 1 for _Bool, the nearest representable value for '
     'floating types, the truncated value from floating to integer, and the same address between pointers and integers. '
     'An address of an object is never narrowed to a constant that cannot hold it, and the contents of an object are never mistaken for its address.',
     ['inputs', 'programs'], 'every value of every integer type to every other, every 64-bit integer to each floating type, every double below 2^63 in magnitude to every integer type, every kind of address constant with every offset',
     'The tests convert some dozens of chosen constants; the sign, width and kind combinations where conversions go wrong are only covered by quantifying over all values.',
     ['src/cc1/ops/expr_cast.c', 'src/cc1/const.c', 'src/cc1/num.c'],
     [('fold_const_expr_cast, convert_integral_to_integral_warn, check_addr_int_cast', 'src/cc1/ops/expr_cast.c'), ('const_ensure_num_or_memaddr', 'src/cc1/const.c'), ('integral_truncate_bits', 'src/cc1/num.c')],
     [cast('int-int' + n, 'CASE_II', *d) for n, d in (('', ('QF=0', 'QT=0')), ('-qual', ('QF=1', 'QT=1')), ('-nobuiltin', ('QF=0', 'QT=0', 'FSIGNED')))]
     + [cast('int-%s' % t, 'CASE_IF', 'TO=type_' + t, 'QF=0', 'QT=0') for t in ('float', 'double', 'ldouble')]
     + [cast('%s-int' % t, 'CASE_FI', 'FROM=type_' + t, 'QF=0', 'QT=0') for t in ('float', 'double', 'ldouble')]
     + [cast('%s-%s' % (a, b), 'CASE_FF', 'FROM=type_' + a, 'TO=type_' + b, 'QF=0', 'QT=0') for a in ('float', 'double', 'ldouble') for b in ('float', 'double', 'ldouble')]
     + [cast('int-ptr', 'CASE_IP', 'QF=0', 'QT=0')]
     + [cast('address%d-%s' % (k, ('int', 'ptr')[p]), 'CASE_P', 'LK=%d' % k, 'TOPTR=%d' % p, 'QF=0', 'QT=0') for k in range(6) for p in (0, 1)],
     'the cast node fold proved against C99 6.3.1/6.3.2.3 for every value and every pair of integer types. Floating to integer is quantified over all doubles (not all long doubles).',
     assumptions=["the host's long double, double and float conversions follow the target's (same architecture)", 'CBMC models long double as an IEEE format wide enough to hold every 64-bit integer and double exactly, as x87 does'])
