/* The x86-64 machine as a ghost: what the code generator writes is parsed, as
 * text, one instruction at a time as it is emitted, and executed on symbolic
 * registers.  Text is concrete while CBMC runs; immediates may be symbolic
 * (they're carried beside the text). */
#ifndef X86M_H
#define X86M_H
#include <stdarg.h>
#include <string.h>

#define NSLOT 8
static vf_u64 m_r[16];     /* by the compiler's register index */
static double m_xd[8]; static float m_xf[8];
static vf_u64 m_slot[NSLOT];  /* -8*(i+1)(%rbp) */
static vf_u64 m_lbl;          /* what is at the label "glob" */
static vf_u64 m_addr;         /* the address of it */
static vf_u64 m_ind;          /* what M_PTR points to */
static vf_u64 m_ptr;          /* that address */
static int m_zf, m_sf, m_cf, m_of, m_pf;
static int m_defined;         /* flags are those of a comparison or arithmetic */
static int m_jmp;             /* 1: the last instruction jumped */
static char m_target[64];
static unsigned m_n;          /* instructions executed */

/* ---- text with numbers beside it */
#ifdef VF_CBMC
static vf_u64 tk_num[32]; static unsigned tk_n;
#endif
static int tk_fmt(char *out, unsigned cap, const char *f, va_list l)
{
	unsigned n = 0;
#define PUT(c) do{ char c_ = (c); if(n + 1 < cap) out[n] = c_; n++; }while(0)
	for(; *f; f++){
		int lng = 0;
		if(*f != '%'){ PUT(*f); continue; }
		f++;
		while(*f == 'l'){ lng++; f++; }
		if(*f == 'd' || *f == 'u' || *f == 'i'){
			vf_u64 v = lng ? va_arg(l, vf_u64) : *f == 'u' ? (vf_u64)va_arg(l, unsigned) : (vf_u64)(vf_s64)va_arg(l, int);
#ifdef VF_CBMC
			vf_assert(tk_n < 32, "bounded text"); 
			tk_num[tk_n] = v; PUT(1); PUT('a' + tk_n); tk_n++;
#else
			char b[32]; int i;
			snprintf(b, sizeof b, *f == 'u' ? "%llu" : "%lld", v);
			for(i = 0; b[i]; i++) PUT(b[i]);
#endif
		}else if(*f == 's'){
			const char *s = va_arg(l, const char *);
			while(*s){ PUT(*s); s++; }
		}else if(*f == 'c'){
#ifdef VF_CBMC
			PUT(va_arg(l, char)); /* not promoted there */
#else
			PUT(va_arg(l, int));
#endif
		}else if(*f == '%')
			PUT('%');
		else
			vf_assert(0, "a format the specification knows");
	}
	if(cap) out[n < cap ? n : cap - 1] = 0;
	return (int)n;
}
#ifdef VF_CBMC
int snprintf(char *b, size_t n, const char *f, ...) { va_list l; int r; va_start(l, f); r = tk_fmt(b, (unsigned)n, f, l); va_end(l); return r; }
int vsnprintf(char *b, size_t n, const char *f, va_list l) { return tk_fmt(b, (unsigned)n, f, l); }
#endif

/* ---- operands */
enum { O_NONE, O_IMM, O_REG, O_XMM, O_SLOT, O_LBL, O_LBLADDR, O_IND, O_RIPADDR };
struct opnd { int k; int idx; int sz; vf_u64 imm; };

static vf_u64 p_num(const char **pp)
{
	const char *p = *pp; vf_u64 v = 0; int neg = 0;
	if(*p == '-'){ neg = 1; p++; }
#ifdef VF_CBMC
	vf_assert(*p == 1, "a number");
	v = tk_num[p[1] - 'a']; p += 2;
#else
	vf_assert((*p >= '0' && *p <= '9') || *p == '-', "a number");
	if(*p == '-'){ neg ^= 1; p++; }
	while(*p >= '0' && *p <= '9') v = v * 10 + (vf_u64)(*p++ - '0');
#endif
	*pp = p;
	return neg ? -v : v;
}
static int m_eq(const char *a, const char *b) { while(*a && *a == *b) a++, b++; return *a == *b; }
static int p_is(const char *p, const char *s) { while(*s) if(*p++ != *s++) return 0; return 1; }
#define PK(a, b, c, d) ((unsigned)(unsigned char)(a) | (unsigned)(unsigned char)(b) << 8 | (unsigned)(unsigned char)(c) << 16 | (unsigned)(unsigned char)(d) << 24)
/* after the %: register number and size */
static void p_reg(const char **pp, struct opnd *o)
{
	const char *p = *pp; char c[4] = { 0, 0, 0, 0 }; int i;
	static const char let[] = "abcd";
	if(p_is(p, "xmm")){
		o->k = O_XMM; o->idx = p[3] - '0'; *pp = p + 4;
		vf_assert(o->idx >= 0 && o->idx < 8, "a register there is");
		return;
	}
	for(i = 0; i < 4 && ((*p >= 'a' && *p <= 'z') || (*p >= '0' && *p <= '9')); i++) c[i] = *p++;
	*pp = p;
	o->k = O_REG; o->idx = -1; o->sz = 8;
	if(c[0] == 'r' && c[1] >= '0' && c[1] <= '9'){
		int n = c[1] - '0', j = 2;
		if(c[2] >= '0' && c[2] <= '9'){ n = n * 10 + c[2] - '0'; j = 3; }
		o->idx = 6 + n - 8;
		vf_assert(n >= 8 && n <= 15, "a register there is");
		if(j < 4 && c[j]) { o->sz = c[j] == 'b' ? 1 : c[j] == 'w' ? 2 : c[j] == 'd' ? 4 : 0; vf_assert(o->sz, "a register there is"); }
		return;
	}
	switch(PK(c[0], c[1], c[2], c[3])){
#define R4(n, w, d, q) case w: o->idx = n; o->sz = 2; break; case d: o->idx = n; o->sz = 4; break; case q: o->idx = n; o->sz = 8; break;
#define RX(n, x) R4(n, PK(x, 'x', 0, 0), PK('e', x, 'x', 0), PK('r', x, 'x', 0)) case PK(x, 'l', 0, 0): o->idx = n; o->sz = 1; break;
		RX(0, 'a') RX(1, 'b') RX(2, 'c') RX(3, 'd')
#define RI(n, x, y) R4(n, PK(x, y, 0, 0), PK('e', x, y, 0), PK('r', x, y, 0)) case PK(x, y, 'l', 0): o->idx = n; o->sz = 1; break;
		RI(4, 'd', 'i') RI(5, 's', 'i') RI(14, 'b', 'p') RI(15, 's', 'p')
	}
	(void)let;
	vf_assert(o->idx >= 0, "a register there is");
}
static const char *p_opnd(const char *p, struct opnd *o)
{
	o->k = O_NONE; o->idx = 0; o->sz = 0; o->imm = 0;
	if(*p == '$'){
		p++;
		if(*p == 1 || *p == '-' || (*p >= '0' && *p <= '9')){
			o->k = O_IMM; o->imm = p_num(&p);
		}else{
			o->k = O_LBLADDR;
			vf_assert(p_is(p, "glob"), "the label");
			p += 4;
			if(*p == '+'){ p++; o->imm = p_num(&p); }
		}
	}else if(*p == '%'){
		p++; p_reg(&p, o);
	}else if(*p == 'g'){
		vf_assert(p_is(p, "glob"), "the label");
		p += 4; o->k = O_LBL;
		if(*p == '+'){ p++; o->imm = p_num(&p); }
		if(p_is(p, "(%rip)")) p += 6;
	}else{
		struct opnd b; vf_u64 d = 0;
		if(*p != '(') d = p_num(&p);
		vf_assert(p_is(p, "(%"), "a memory operand");
		p += 2; p_reg(&p, &b);
		vf_assert(*p == ')' && b.k == O_REG && b.sz == 8, "a memory operand");
		p++;
		o->imm = d; 
		if(b.idx == 14){
			vf_s64 s = -(vf_s64)d;
			vf_assert(s > 0 && s % 8 == 0 && s / 8 <= NSLOT, "a stack slot allocated");
			o->k = O_SLOT; o->idx = (int)(s / 8 - 1);
		}else{
			o->k = O_IND; o->idx = b.idx;
		}
	}
	return p;
}
static vf_u64 m_mask(int sz) { return sz >= 8 ? ~0ULL : (1ULL << (sz * 8)) - 1; }
static vf_u64 m_sx(vf_u64 v, int sz) { vf_u64 s = 1ULL << (sz * 8 - 1); v &= m_mask(sz); return (v ^ s) - s; }
static vf_u64 m_ea(const struct opnd *o) { return o->k == O_IND ? m_r[o->idx] + o->imm : o->k == O_LBL ? m_addr + o->imm : m_r[14] + o->imm; }
static vf_u64 m_get(const struct opnd *o, int sz)
{
	vf_u64 v = 0;
	switch(o->k){
		case O_IMM:
			/* what an assembler accepts, sign-extended from 32 bits */
			if(sz == 8) vf_assert(o->imm == m_sx(o->imm, 4), "a 32-bit immediate");
			else vf_assert(o->imm == m_sx(o->imm, sz) || o->imm == (o->imm & m_mask(sz)), "an immediate of the operand's size");
			v = o->imm; break;
		case O_LBLADDR: vf_assert(sz == 8 || sz == 4, "an address"); v = m_addr + o->imm; break;
		case O_REG: vf_assert(o->sz == sz, "the register named is the instruction's size"); v = m_r[o->idx]; break;
		case O_SLOT: v = m_slot[o->idx]; break;
		case O_LBL: vf_assert(!o->imm, "the label's object"); v = m_lbl; break;
		case O_IND: vf_assert(m_ea(o) == m_ptr, "the object pointed to"); v = m_ind; break;
		default: vf_assert(0, "an integer operand");
	}
	return v & m_mask(sz);
}
static void m_set(const struct opnd *o, int sz, vf_u64 v)
{
	v &= m_mask(sz);
	switch(o->k){
		case O_REG:
			vf_assert(o->sz == sz, "the register named is the instruction's size");
			m_r[o->idx] = sz == 4 ? v : (m_r[o->idx] & ~m_mask(sz)) | v; break;
		case O_SLOT: m_slot[o->idx] = (m_slot[o->idx] & ~m_mask(sz)) | v; break;
		case O_LBL: vf_assert(!o->imm, "the label's object"); m_lbl = (m_lbl & ~m_mask(sz)) | v; break;
		case O_IND: vf_assert(m_ea(o) == m_ptr, "the object pointed to"); m_ind = (m_ind & ~m_mask(sz)) | v; break;
		default: vf_assert(0, "a destination that can be written");
	}
}
static void m_logicf(vf_u64 r, int sz) { r &= m_mask(sz); m_zf = !r; m_sf = (r >> (sz * 8 - 1)) & 1; m_cf = m_of = 0; m_defined = 1; }
static void m_subf(vf_u64 a, vf_u64 b, int sz)
{
	vf_u64 r = (a - b) & m_mask(sz); unsigned t = sz * 8 - 1;
	a &= m_mask(sz); b &= m_mask(sz);
	m_zf = !r; m_sf = (r >> t) & 1; m_cf = a < b; m_of = (((a ^ b) & (a ^ r)) >> t) & 1; m_defined = 1;
}
static void m_addf(vf_u64 a, vf_u64 b, int sz)
{
	vf_u64 r = (a + b) & m_mask(sz); unsigned t = sz * 8 - 1;
	a &= m_mask(sz); b &= m_mask(sz);
	m_zf = !r; m_sf = (r >> t) & 1; m_cf = r < a; m_of = ((~(a ^ b) & (a ^ r)) >> t) & 1; m_defined = 1;
}
static int m_cc(const char *c)
{
	vf_assert(m_defined, "flags are tested only after the comparison that set them");
	switch(PK(c[0], c[0] ? c[1] : 0, c[0] && c[1] ? c[2] : 0, 0)){
		case PK('e', 0, 0, 0): case PK('z', 0, 0, 0): return m_zf;
		case PK('n', 'e', 0, 0): case PK('n', 'z', 0, 0): return !m_zf;
		case PK('l', 0, 0, 0): return m_sf != m_of;
		case PK('l', 'e', 0, 0): return m_zf || m_sf != m_of;
		case PK('g', 0, 0, 0): return !m_zf && m_sf == m_of;
		case PK('g', 'e', 0, 0): return m_sf == m_of;
		case PK('b', 0, 0, 0): return m_cf;
		case PK('b', 'e', 0, 0): return m_cf || m_zf;
		case PK('a', 0, 0, 0): return !m_cf && !m_zf;
		case PK('a', 'e', 0, 0): return !m_cf;
		case PK('o', 0, 0, 0): return m_of;
		case PK('n', 'o', 0, 0): return !m_of;
		case PK('s', 0, 0, 0): return m_sf;
		case PK('n', 's', 0, 0): return !m_sf;
		case PK('p', 0, 0, 0): return m_pf;
		case PK('n', 'p', 0, 0): return !m_pf;
	}
	vf_assert(0, "a condition code there is");
	return 0;
}
static int m_sfx(char c) { return c == 'b' ? 1 : c == 'w' ? 2 : c == 'l' ? 4 : c == 'q' ? 8 : 0; }
#ifdef M_UNINTERP
/* multiplication and division as uninterpreted functions (checked elsewhere to be applied to the right operands) */
vf_u64 __CPROVER_uninterpreted_mul(vf_u64, vf_u64), __CPROVER_uninterpreted_div(vf_u64, vf_u64, int), __CPROVER_uninterpreted_mod(vf_u64, vf_u64, int);
#endif
static vf_u64 m_mul(vf_u64 a, vf_u64 b, int sz) { return (a * b) & m_mask(sz); }

/* one instruction */
static void m_exec(const char *t)
{
	char mn[12]; int i, sz; struct opnd a, b; const char *p = t; char last;
	for(i = 0; i < 12; i++) mn[i] = 0;
	for(i = 0; i < 11 && *p >= 'a' && *p <= 'z' || i < 11 && *p == '2'; i++) mn[i] = *p++;
	vf_assert(i > 0, "an instruction");
	last = mn[i - 1];
	m_n++; 
	if(mn[0] == 'j' ){
		int tk = m_eq(mn, "jmp") ? 1 : m_cc(mn + 1), j;
		vf_assert(*p == ' ', "an operand");
		p++;
		if(tk && !m_jmp){
			m_jmp = 1;
			for(j = 0; j < 63 && *p && *p != '\n'; j++) m_target[j] = *p++;
			m_target[j] = 0;
		}
		return;
	}
	if(m_jmp) return;
	a.k = b.k = O_NONE;
	if(*p == ' '){
		p = p_opnd(p + 1, &a);
		if(*p == ','){
			vf_assert(p[1] == ' ', "two operands");
			p = p_opnd(p + 2, &b);
		}
	}
	vf_assert(*p == 0, "one instruction");
	if(m_eq(mn, "cltd")){ m_r[3] = (m_sx(m_r[0], 4) >> 32) & 0xffffffff; return; }
	if(m_eq(mn, "cqto")){ m_r[3] = (vf_u64)((vf_s64)m_r[0] >> 63); return; }
	if(m_eq(mn, "movabsq")){ vf_assert(a.k == O_IMM && b.k == O_REG && b.sz == 8, "movabsq imm, reg"); m_r[b.idx] = a.imm; return; }
	if(m_eq(mn, "leaq")){
		vf_assert(b.k == O_REG && b.sz == 8, "lea into a 64-bit register");
		vf_assert(a.k == O_SLOT || a.k == O_LBL || a.k == O_IND, "lea of a memory operand");
		m_r[b.idx] = m_ea(&a); return;
	}
	if(p_is(mn, "set")){ vf_u64 v = m_cc(mn + 3); vf_assert(b.k == O_NONE, "one operand"); m_set(&a, 1, v); return; }
	if(p_is(mn, "mov") && (mn[3] == 's' || mn[3] == 'z') && mn[4] && mn[5] && !mn[6]){
		int from = m_sfx(mn[4]), to = m_sfx(mn[5]); vf_u64 v;
		vf_assert(from && to > from && !(mn[3] == 'z' && to == 8 && from == 4), "an extension there is");
		vf_assert(b.k == O_REG && a.k != O_IMM, "into a register");
		v = m_get(&a, from);
		m_set(&b, to, mn[3] == 's' ? m_sx(v, from) : v);
		return;
	}
	if(m_eq(mn, "movss") || m_eq(mn, "movsd") || m_eq(mn, "xorps") || m_eq(mn, "xorpd")){
		if(mn[0] == 'x'){
			vf_assert(a.k == O_XMM && b.k == O_XMM && a.idx == b.idx, "only to clear");
			m_xd[b.idx] = 0; m_xf[b.idx] = 0;
		}else{
			vf_assert(a.k == O_XMM && b.k == O_XMM, "xmm registers");
			if(last == 's') m_xf[b.idx] = m_xf[a.idx]; else m_xd[b.idx] = m_xd[a.idx];
		}
		return;
	}
	if(m_eq(mn, "ucomiss") || m_eq(mn, "ucomisd")){
		int un, lt, eq;
		vf_assert(a.k == O_XMM && b.k == O_XMM, "xmm registers");
		if(last == 's'){ float x = m_xf[b.idx], y = m_xf[a.idx]; un = x != x || y != y; lt = x < y; eq = x == y; }
		else{ double x = m_xd[b.idx], y = m_xd[a.idx]; un = x != x || y != y; lt = x < y; eq = x == y; }
		m_zf = un || eq; m_pf = un; m_cf = un || lt; m_sf = m_of = 0; m_defined = 1;
		return;
	}
	sz = m_sfx(last);
	if(m_eq(mn, "test") || m_eq(mn, "mov")) sz = b.sz; /* from the registers */
	else { vf_assert(sz, "an operand size"); mn[i - 1] = 0; }
	if(m_eq(mn, "mov")){
		vf_assert(a.k == O_REG || a.k == O_IMM || a.k == O_LBLADDR || b.k == O_REG, "not memory to memory");
		m_set(&b, sz, m_get(&a, sz));
		return;
	}
	if(m_eq(mn, "neg") || m_eq(mn, "not") || m_eq(mn, "inc") || m_eq(mn, "dec")){
		vf_u64 v = m_get(&a, sz);
		vf_assert(b.k == O_NONE && a.k != O_IMM, "one operand");
		if(mn[0] == 'n' && mn[1] == 'e'){ m_set(&a, sz, -v); m_subf(0, v, sz); }
		else if(mn[0] == 'n') m_set(&a, sz, ~v);
		else if(mn[0] == 'i'){ int c = m_cf; m_set(&a, sz, v + 1); m_addf(v, 1, sz); m_cf = c; }
		else{ int c = m_cf; m_set(&a, sz, v - 1); m_subf(v, 1, sz); m_cf = c; }
		return;
	}
	if(m_eq(mn, "idiv") || m_eq(mn, "div")){
		vf_u64 d = m_get(&a, sz), n = m_r[0] & m_mask(sz), h = m_r[3] & m_mask(sz), q, r;
		struct opnd ax, dx;
		vf_assert(b.k == O_NONE && a.k != O_IMM && sz >= 4, "one operand, not immediate");
		vf_assert(!(a.k == O_REG && a.idx == 3), "the divisor isn't in rdx");
		if(mn[0] == 'i'){
			vf_s64 x = (vf_s64)m_sx(n, sz), y = (vf_s64)m_sx(d, sz);
			vf_assert(h == ((vf_u64)(x < 0 ? -1 : 0) & m_mask(sz)), "rdx sign-extends rax");
			q = (vf_u64)(x / y); r = (vf_u64)(x % y);
		}else{
			vf_assert(h == 0, "rdx zero-extends rax");
			q = n / d; r = n % d;
		}
		ax.k = dx.k = O_REG; ax.sz = dx.sz = sz; ax.idx = 0; dx.idx = 3;
		m_set(&ax, sz, q); m_set(&dx, sz, r);
		m_defined = 0;
		return;
	}
	vf_assert(b.k != O_NONE, "two operands");
	if(m_eq(mn, "shl") || m_eq(mn, "sar") || m_eq(mn, "shr")){
		vf_u64 c, v = m_get(&b, sz);
		vf_assert(a.k == O_IMM || (a.k == O_REG && a.idx == 2 && a.sz == 1), "shifted by an immediate or %cl");
		c = m_get(&a, 1) & (sz == 8 ? 63 : 31);
		m_set(&b, sz, mn[2] == 'l' ? v << c : mn[1] == 'a' ? (vf_u64)((vf_s64)m_sx(v, sz) >> c) : v >> c);
		m_defined = 0;
		return;
	}
	{
		vf_u64 x = m_get(&b, sz), y = m_get(&a, sz);
		vf_assert(b.k != O_IMM && (a.k == O_REG || a.k == O_IMM || a.k == O_LBLADDR || b.k == O_REG), "a combination of operands there is");
		if(m_eq(mn, "cmp")) m_subf(x, y, sz);
		else if(m_eq(mn, "test")) m_logicf(x & y, sz);
		else if(m_eq(mn, "add")){ m_set(&b, sz, x + y); m_addf(x, y, sz); }
		else if(m_eq(mn, "sub")){ m_set(&b, sz, x - y); m_subf(x, y, sz); }
		else if(m_eq(mn, "and")){ m_set(&b, sz, x & y); m_logicf(x & y, sz); }
		else if(m_eq(mn, "or")){ m_set(&b, sz, x | y); m_logicf(x | y, sz); }
		else if(m_eq(mn, "xor")){ m_set(&b, sz, x ^ y); m_logicf(x ^ y, sz); }
		else if(m_eq(mn, "imul")){ vf_assert(b.k == O_REG && sz > 1, "imul into a register"); m_set(&b, sz, m_mul(x, y, sz)); m_defined = 0; }
		else vf_assert(0, "an instruction the specification knows");
	}
}
#endif
