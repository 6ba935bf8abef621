// Literals whose characters are symbolic: templates, and an oracle for their values and types.
#include "lib.h"
static u64 undefined_symbol(const char *n) { return (u64)hs_func(n); }
// A template is text in which '~' introduces a symbolic piece:
//  ~p printable  ~q one of g..z  ~e simple escape  ~oN octal escape of N digits  ~x<classes>; hex escape  ~u<classes>; ~U<classes>; universal characters
//  ~tN a UTF-8 sequence of N bytes  ~s ~r line splices  ~b<text>; end of one literal and start of the next  ~7 ~9 ~1 ~h<class> digits  ~c<letter> letter in either case
// classes: 9 a decimal digit, a one of a..f, A one of A..F (symbolic); anything else stands for itself
struct lit { u8 text[256]; u32 len; u32 unit[64]; u32 n; u64 value; u32 width, base; int over; };
static u32 g_nsym;
static u64 sym(u32 bits) { char nm[8] = "s00"; nm[1] = '0' + g_nsym / 10; nm[2] = '0' + g_nsym % 10; g_nsym++; return hs_sym(nm, bits); }
static u32 ranged(u32 lo, u32 n) { u32 v = (u8)sym(8); hs_assume(v - lo < n); return v; }
static void put(struct lit *L, u8 c) { if (L->len >= sizeof L->text) hs_error("literal too long"); L->text[L->len++] = c; }
static void emit_unit(struct lit *L, u32 u) { L->unit[L->n++] = u; }
static u32 digit(struct lit *L, char c) {
  if (c == '9') { u32 v = ranged('0', 10); put(L, v); return v - '0'; }
  if (c == 'a' || c == 'A') { u32 v = ranged(c, 6); put(L, v); return v - c + 10; }
  if (c == '7') { u32 v = (u32)sym(8) & 7; put(L, v | '0'); return v; }
  if (c == '1') { u32 v = (u32)sym(8) & 1; put(L, v | '0'); return v; }
  hs_error("digit class"); return 0;
}
static u32 hexrun(struct lit *L, const char **t) { u32 v = 0; for (; **t != ';'; ++*t) { char c = **t; u32 d; if (c == '9' || c == 'a' || c == 'A') d = digit(L, c); else { put(L, c); d = c <= '9' ? c - '0' : (c | 32) - 'a' + 10; } v = v * 16 + d; } ++*t; return v; }
static void codepoint(struct lit *L, u32 c) { // c is at least 0x80 here unless concrete
  if (L->width == 4) emit_unit(L, c);
  else if (L->width == 2) { if (c < 0x10000) emit_unit(L, c); else { emit_unit(L, 0xd800 + (c - 0x10000 >> 10)); emit_unit(L, 0xdc00 + (c - 0x10000 & 0x3ff)); } }
  else if (c < 0x80) emit_unit(L, c); else if (c < 0x800) { emit_unit(L, 0xc0 | c >> 6); emit_unit(L, 0x80 | c & 63); }
  else if (c < 0x10000) { emit_unit(L, 0xe0 | c >> 12); emit_unit(L, 0x80 | c >> 6 & 63); emit_unit(L, 0x80 | c & 63); }
  else { emit_unit(L, 0xf0 | c >> 18); emit_unit(L, 0x80 | c >> 12 & 63); emit_unit(L, 0x80 | c >> 6 & 63); emit_unit(L, 0x80 | c & 63); }
}
static void num_digit(struct lit *L, u32 d) { L->value = L->value * L->base + d; }
static void build(struct lit *L, const char *t, u32 width, u32 base) {
  zero(L, sizeof *L); L->width = width; L->base = base; u32 max = width == 1 ? 0xff : width == 2 ? 0xffff : 0xffffffff;
  while (*t) {
    if (*t != '~') { u8 c = *t++; put(L, c); if (base && c >= '0' && c <= '9') num_digit(L, c - '0'); continue; }
    char k = t[1]; t += 2;
    switch (k) {
      case 'p': { u32 c = (u8)sym(8); hs_assume(c >= 32 && c < 127 && c != '"' && c != '\'' && c != '\\' && c != '?'); put(L, c); emit_unit(L, c); break; }
      case 'q': { u32 c = ranged('g', 20); put(L, c); emit_unit(L, c); break; }
      case 'e': { static const char a[] = "abfnrtv\\'\"?", b[] = "\a\b\f\n\r\t\v\\'\"?"; u32 i = hs_choice(sizeof a - 1); put(L, '\\'); put(L, a[i]); emit_unit(L, b[i]); break; }
      case 'o': { int n = *t++ - '0'; put(L, '\\'); u32 v = 0; for (int i = 0; i < n; i++) { u32 d = digit(L, '7'); v = v * 8 + d; } hs_assume(v <= max); emit_unit(L, v); break; }
      case 'x': { put(L, '\\'); put(L, 'x'); u32 v = hexrun(L, &t); hs_assume(v <= max); emit_unit(L, v); break; }
      case 'u': case 'U': { put(L, '\\'); put(L, k); u32 c = hexrun(L, &t); hs_assume(c >= 0xa0 && (c < 0xd800 || c > 0xdfff) && c <= 0x10ffff); codepoint(L, c); break; }
      case 't': { int n = *t++ - '0'; u32 c = (u32)sym(32); 
        if (n == 2) { hs_assume(c >= 0x80 && c < 0x800); put(L, 0xc0 | c >> 6); put(L, 0x80 | c & 63); }
        else if (n == 3) { hs_assume(c >= 0x800 && c < 0x10000 && (c < 0xd800 || c > 0xdfff)); put(L, 0xe0 | c >> 12); put(L, 0x80 | c >> 6 & 63); put(L, 0x80 | c & 63); }
        else { hs_assume(c >= 0x10000 && c < 0x110000); put(L, 0xf0 | c >> 18); put(L, 0x80 | c >> 12 & 63); put(L, 0x80 | c >> 6 & 63); put(L, 0x80 | c & 63); }
        codepoint(L, c); break; }
      case 's': put(L, '\\'); put(L, '\n'); break;
      case 'r': put(L, '\\'); put(L, '\r'); put(L, '\n'); break;
      case 'b': while (*t != ';') put(L, *t++); t++; break;
      case '7': case '9': case '1': num_digit(L, digit(L, k)); break;
      case 'h': { char c = *t++; num_digit(L, digit(L, c)); break; }
      case 'H': { char c = *t++; put(L, c); num_digit(L, c <= '9' ? c - '0' : (c | 32) - 'a' + 10); break; } // a concrete hex digit
      case 'c': { u8 c = *t++; put(L, c ^ (u8)sym(8) & 0x20); break; }
      case '=': put(L, *t++); break; // a character that is no digit of the value
      default: hs_error("template");
    }
  }
}
// '@' in the source stands for the literal, '#' for its number of code units
static u8 *g_src; static u32 g_srclen;
static void make_source(const char *s, struct lit *L) {
  u8 *d = hs_alloc(8192); u32 n = 0; for (; *s; s++) { if (n > 7600) hs_error("source too long"); if (*s == '@') { cpy(d + n, L->text, L->len); n += L->len; } else if (*s == '#') { char b[24]; char *e = sappu(b, L->n); cpy(d + n, b, e - b); n += e - b; } else d[n++] = *s; }
  g_src = d; g_srclen = n; hs_file("a.c", d, n);
}
static char g_m[512];
static const char *msg(const char *a, const char *b) { sapp(sapp(sapp(g_m, a), ": "), b); return g_m; }
static void compile(const char *name, struct img *I) {
  int r = hs_compile("hlc.exe /obj /no_stdlib /quiet a.c", 1ull << 34);
  if (r) hs_fail(msg(name, r < 0 ? "the compiler crashed" : "a valid program was rejected"));
  hs_reach("compiled"); load_obj(I, "a.obj");
}
static u64 call0(struct img *I, const char *name, const char *fn, u64 *a, u32 n) {
  u64 t = sym_addr(I, fn); if (!t) hs_fail(msg(name, "function is missing")); struct call c; int f = call_fn(&c, t, a, n, 0, 4000000); if (f) hs_fail(msg(name, "compiled code faults")); check_abi(&c); return c.ret;
}
