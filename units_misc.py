from vfdrv import Z3, KISSAT
from units import prop, U, INTS, TYPES

# ---------------------------------------------------------------- C12 LEB128
prop('C12', 'LEB128 values in debug information round-trip',
     'Every signed or unsigned 64-bit value the compiler writes in LEB128 decodes back to that value, uses as few bytes as possible, and takes exactly the number of bytes that were announced when offsets were laid out.',
     ['inputs'], 'every 64-bit value, signed and unsigned',
     'Tests see the few abbreviation codes and offsets of small programs.',
     ['src/cc1/out/leb.c'], [('leb128_out, leb128_length', 'src/cc1/out/leb.c')],
     [U('leb128', 'leb.c', 'leb128_out', plain=True, unwind=34, functions=['leb128_out', 'leb128_length'], checks=['bounds', 'pointer', 'undefined-shift'])],
     'both functions proved for all values (their loops run at most ten times for a 64-bit value; the unwinding assertions show it). fprintf is interpreted by a stand-in that keeps the numbers symbolic.')
