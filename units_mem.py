from vfdrv import Z3, KISSAT
from units import prop, U, INTS, TYPES
from units_out import ALLINT, OUTL

# ---------------------------------------------------------------- C07 bit-fields
def bf(load, p, **k):
    return U('bitfield-%s:%s' % ('load' if load else 'store', p), 'bitfield.c', 'out_bitfield_to_scalar' if load else 'out_bitfield_scalar_merge', plain=True, unwind=30,
             defs=['LOAD=%d' % load, 'PRIM=type_' + p], checks=['undefined-shift'], link=OUTL[:4] + TYPES, drop=['type_ptr_to', 'type_cmp'], objbits=12, **k)
prop('C07', 'Accessing a bit-field touches exactly its bits',
     'Reading a bit-field of any width at any offset of any integer type gives exactly the bits it occupies, sign-extended if its type is signed. Writing one makes its bits the low bits of the value written and leaves every other bit of the '
     'containing word as it was.',
     ['inputs', 'programs'], 'every integer base type, every width and every offset that fits the type, every word and every value written of every integer type',
     'The tests use a handful of widths and offsets; fields that end at the top bit of a 64-bit word were broken with all tests passing.',
     ['src/cc1/out/bitfield.c'],
     [('out_bitfield_to_scalar, out_bitfield_scalar_merge', 'src/cc1/out/bitfield.c')],
     [bf(l, p) for l in (1, 0) for p in ['_Bool'] + ALLINT],
     'both functions proved for all widths, offsets, words and values over the ghost model of C16; out_op and out_cast are replaced by their contracts there.',
     assumptions=['out_op and out_cast compute the operator they are asked for (C16)', 'the width and offset given to a field fit its type (the layout, C06)'])

# ---------------------------------------------------------------- C17 memcpy, memset
def mem(name, st, inj):
    return U(name, 'mem.c', name, plain=True, unwind=12, defs=['SET=%d' % st], checks=[], link=OUTL[:4] + ['cc1/type_nav.c'] + TYPES, drop=['type_size', 'type_nav_MAX_FOR', 'type_ptr_to', 'type_nav_btype', 'type_nav_voidptr', 'type_func_of'], loops=True, solver=KISSAT, timeout=60, timeout2=5,
             inject=[('cc1/out/mem.c', inj)], fallback_unwind=14, fallback_defs=['MAXN=12'],
             functions=[name, 'should_use_libc', 'emit_libc_call'] + ['out_memcpy_single'] * (not st))
prop('C17', 'Copying or clearing an object touches exactly its bytes',
     'When the compiler expands the copy or clearing of an object of any size - inline, or as a library call, whichever strategy is chosen - every byte of the object is written exactly once, each copied byte comes from the same offset of the source, '
     'nothing outside either object is read or written, and the result is the destination.',
     ['inputs', 'programs'], 'every object size below 2^32 bytes, every expansion strategy and threshold',
     'The tests copy and clear objects of a few sizes with the default strategy; clearing 15 bytes inline missed three with all tests passing.',
     ['src/cc1/out/mem.c', 'src/cc1/type.c'],
     [('out_memcpy, out_memset', 'src/cc1/out/mem.c'), ('type_primitive_not_less_than_size', 'src/cc1/type.c')],
     [U('type_nav_MAX_FOR', 'step.c', 'type_nav_MAX_FOR', plain=True, unwind=10, link=['cc1/type_nav.c'] + TYPES, drop=['type_nav_btype'], functions=['type_nav_MAX_FOR', 'type_primitive_not_less_than_size']),
      mem('out_memcpy', 0, [('out_memcpy', 0, 'LOOPCT(INV_CPY, dest, src, bytes_todo)'), ('out_memcpy', 1, 'LOOPCT(INV_CPY_IN, dest, src, bytes_todo)')]),
      mem('out_memset', 1, [('out_memset', 0, 'LOOPCT(INV_SET, v_ptr, bytes_todo)'), ('out_memset', 1, 'LOOPCT(INV_SET_IN, v_ptr, bytes_todo)')])],
     'both functions proved with loop invariants (no bound on the size) against a ghost account of the bytes read and written: how far each pointer has moved, and how many bytes are done. '
     'If the loops are restructured so that the invariants no longer fit, a check of all sizes up to 12 bytes (bounded, not counted as proved) stands in.',
     assumptions=['a pointer plus a constant, a load and a store do what they are asked to (C16, C20)'])
