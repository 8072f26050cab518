/* Stand-ins for the diagnostics functions (util/warn.c, util/util.c,
 * cc1/warn.c): they record that they were called.  Errors that end the
 * compilation end the path; the specification says where they may happen
 * (vf_g.die_ok).  An internal error (ice) is never permitted. */
#include <stdarg.h>
#include "vf.h"
#include "util/where.h"
#include "util/warn.h"

#ifdef VF_CBMC
#define VF_ENDPATH() __CPROVER_assume(0)
#else
void vf_end_path(void) __attribute__((noreturn));
#define VF_ENDPATH() vf_end_path()
#endif

#define VF_DIE() \
	vf_assert(vf_g.die_ok, "compilation may only be ended with an error where the language requires one"); \
	VF_ENDPATH()

void die_at(const struct where *w, const char *fmt, ...) { (void)w; (void)fmt; VF_DIE(); }
void vdie(const struct where *w, const char *fmt, va_list l) { (void)w; (void)fmt; (void)l; VF_DIE(); }
void die(const char *fmt, ...) { (void)fmt; VF_DIE(); }
void warn_at(const struct where *w, const char *fmt, ...) { (void)w; (void)fmt; vf_g.nwarn++; }
void note_at(const struct where *w, const char *fmt, ...) { (void)w; (void)fmt; }
void warn_at_print_error(const struct where *w, const char *fmt, ...) { (void)w; (void)fmt; vf_g.nerr++; }
void ice(const char *f, int l, const char *fn, const char *fmt, ...)
{
	(void)f; (void)l; (void)fn; (void)fmt;
	vf_assert(0, "internal compiler error is unreachable");
	VF_ENDPATH();
}
void icw(const char *f, int l, const char *fn, const char *fmt, ...)
{
	(void)f; (void)l; (void)fn; (void)fmt;
}
int cc1_warn_at_w(const struct where *w, const unsigned char *pwarn, const char *fmt, ...)
{
	(void)w; (void)fmt;
	vf_g.nwarn++;
	vf_g.lastwarn = pwarn;
	return 1;
}
