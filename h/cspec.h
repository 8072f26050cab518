/* The C integer types on x86-64 (LP64, plain char signed) as mathematics.
 * Written from C99 6.2.5/6.3.1 and the psABI, not from /repo's code. */
#ifndef CSPEC_H
#define CSPEC_H
#include "vf.h"

typedef __int128 vf_wide;

/* type kinds, numbered as /repo's enum type_primitive is at the point of use */
static inline int sp_is_int(enum type_primitive p)
{
	switch(p){
		case type__Bool: case type_nchar: case type_schar: case type_uchar:
		case type_short: case type_ushort: case type_int: case type_uint:
		case type_long: case type_ulong: case type_llong: case type_ullong:
			return 1;
		default:
			return 0;
	}
}

static inline int sp_signed(enum type_primitive p)
{
	switch(p){
		case type_nchar: case type_schar: case type_short: case type_int: case type_long: case type_llong:
			return 1;
		default:
			return 0;
	}
}

static inline unsigned sp_size(enum type_primitive p)
{
	switch(p){
		case type__Bool: case type_nchar: case type_schar: case type_uchar: return 1;
		case type_short: case type_ushort: return 2;
		case type_int: case type_uint: return 4;
		default: return 8;
	}
}

/* conversion rank, C99 6.3.1.1 */
static inline int sp_rank(enum type_primitive p)
{
	switch(p){
		case type__Bool: return 0;
		case type_nchar: case type_schar: case type_uchar: return 1;
		case type_short: case type_ushort: return 2;
		case type_int: case type_uint: return 3;
		case type_long: case type_ulong: return 4;
		default: return 5;
	}
}

static inline vf_u64 sp_mask(unsigned bytes)
{
	return bytes >= 8 ? ~0ULL : (1ULL << (bytes * 8)) - 1;
}

/* the 64-bit pattern that stands for the value of type p with these low bits:
 * sign-extended for signed types, zero-extended otherwise */
static inline vf_u64 sp_conv_bits(vf_u64 v, unsigned bytes, int is_signed)
{
	vf_u64 m = sp_mask(bytes), low = v & m;
	if(is_signed && ((low >> (bytes * 8 - 1)) & 1))
		low |= ~m;
	return low;
}

static inline vf_u64 sp_conv(vf_u64 v, enum type_primitive p)
{
	return sp_conv_bits(v, sp_size(p), sp_signed(p));
}

/* v is a canonical pattern of a value of type p */
static inline int sp_rep(vf_u64 v, enum type_primitive p)
{
	if(p == type__Bool)
		return v <= 1;
	return sp_conv(v, p) == v;
}

static inline vf_wide sp_val(vf_u64 v, enum type_primitive p)
{
	return sp_signed(p) ? (vf_wide)(vf_s64)v : (vf_wide)v;
}

static inline int sp_fits(vf_wide w, enum type_primitive p)
{
	vf_wide hi, lo;
	unsigned bits = sp_size(p) * 8;
	if(sp_signed(p)){
		hi = ((vf_wide)1 << (bits - 1)) - 1;
		lo = -((vf_wide)1 << (bits - 1));
	}else{
		hi = ((vf_wide)1 << bits) - 1;
		lo = 0;
	}
	return lo <= w && w <= hi;
}
#endif
