/* The type of the widest step that fits what is left to copy. */
#include "vf.h"
#include "types.h"
#include "diag.h"
#include "cc1/type_nav.h"
#include "cc1/type_is.h"

type *type_nav_btype(struct type_nav *n, enum type_primitive p) { (void)n; return vf_type(0, p); }
void harness(void)
{
	unsigned sz = vf_in();
	int sgn = vf_in() & 1;
	enum type_primitive p;
	unsigned n;
	VF_INIT();
	vf_types_init();
	vf_assume(sz);
	p = type_get_primitive(type_nav_MAX_FOR(0, sz, sgn));
	vf_assert(p == (sz >= 8 ? (sgn ? type_long : type_ulong) : sz >= 4 ? (sgn ? type_int : type_uint) : sz >= 2 ? (sgn ? type_short : type_ushort) : (sgn ? type_schar : type_uchar)), "the widest integer type no larger than the size");
	n = sp_size(p);
	vf_assert(n <= sz && (n == 8 || n * 2 > sz), "it fits");
	vf_cover(1, "reached");
}
