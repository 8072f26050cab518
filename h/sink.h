/* Text written by the code, as a ghost list of items: a literal character, or
 * a number still symbolic.  Formats are interpreted, so it doesn't matter
 * through which stdio function, or in how many pieces, the text is written. */
#ifndef SINK_H
#define SINK_H
#include <stdarg.h>
#include <stdio.h>
#ifndef SINK_MAX
#define SINK_MAX 64
#endif
static struct { unsigned char ch; vf_u64 num; } sk[SINK_MAX + 1]; /* ch 1: a number */
static unsigned sk_n;

static void sk_put(int ch, vf_u64 num)
{
	vf_assert(sk_n < SINK_MAX, "no more is written than the encoding needs");
	vf_assume(sk_n < SINK_MAX);
	sk[sk_n].ch = (unsigned char)ch; sk[sk_n].num = num;
	sk_n++;
}
static void sk_str(const char *s, int prec)
{
	int i;
	for(i = 0; (prec < 0 || i < prec) && s[i]; i++)
		sk_put(s[i], 0);
}
static void sk_vfmt(const char *f, va_list l)
{
	for(; *f; f++){
		int lng = 0, prec = -1;
		if(*f != '%'){ sk_put(*f, 0); continue; }
		f++;
		for(;; f++){
			if(*f == 'l') lng++;
			else if(*f == 'z') lng = 2;
			else if(*f == '.' && f[1] == '*'){ prec = va_arg(l, int); f++; }
			else if(*f == '#' || *f == '0') sk_put(2, 0); /* alternate form / padding: not plain decimal unless 0x */
			else if(*f >= '1' && *f <= '9') ;
			else break;
		}
		switch(*f){
			case 'd': case 'i':
				sk_put(1, lng == 0 ? (vf_u64)va_arg(l, int) : lng == 1 ? (vf_u64)va_arg(l, long) : (vf_u64)va_arg(l, long long)); break;
			case 'u': case 'x':
				sk_put(1, lng == 0 ? (vf_u64)va_arg(l, unsigned) : lng == 1 ? (vf_u64)va_arg(l, unsigned long) : (vf_u64)va_arg(l, unsigned long long)); break;
			case 'c': sk_put(va_arg(l, int), 0); break;
			case 's': sk_str(va_arg(l, const char *), prec); break;
			case '%': sk_put('%', 0); break;
			default: vf_assert(0, "a format the specification knows");
		}
	}
}
static int vf_fprintf(FILE *f, const char *fmt, ...) { va_list l; (void)f; va_start(l, fmt); sk_vfmt(fmt, l); va_end(l); return 1; }
static int vf_vfprintf(FILE *f, const char *fmt, va_list l) { (void)f; sk_vfmt(fmt, l); return 1; }
static int vf_fputc(int c, FILE *f) { (void)f; sk_put(c, 0); return c; }
static int vf_fputs(const char *s, FILE *f) { (void)f; sk_str(s, -1); return 1; }
#undef putc
/* CBMC does not promote variadic arguments: +0 does */
#define VF_P0()
#define VF_P1(a) , (a) + 0
#define VF_P2(a, ...) , (a) + 0 VF_P1(__VA_ARGS__)
#define VF_P3(a, ...) , (a) + 0 VF_P2(__VA_ARGS__)
#define VF_P4(a, ...) , (a) + 0 VF_P3(__VA_ARGS__)
#define VF_P5(a, ...) , (a) + 0 VF_P4(__VA_ARGS__)
#define VF_P6(a, ...) , (a) + 0 VF_P5(__VA_ARGS__)
#define VF_P7(a, ...) , (a) + 0 VF_P6(__VA_ARGS__)
#define VF_P8(a, ...) , (a) + 0 VF_P7(__VA_ARGS__)
#define VF_CNT_(x, a, b, c, d, e, f, g, h, n, ...) n
#define VF_CNT(...) VF_CNT_(0, ##__VA_ARGS__, VF_P8, VF_P7, VF_P6, VF_P5, VF_P4, VF_P3, VF_P2, VF_P1, VF_P0)
#define VF_PROMOTE(...) VF_CNT(__VA_ARGS__)(__VA_ARGS__)
#define fprintf(f, fmt, ...) vf_fprintf(f, fmt VF_PROMOTE(__VA_ARGS__))
#define vfprintf vf_vfprintf
#define fputc vf_fputc
#define putc vf_fputc
#define fputs vf_fputs
#endif
