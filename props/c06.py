"""C06: string literals with symbolic characters."""
from vlib import VERIF, cstr as q
LEVEL = 'checked'
TECHNIQUE = 'symbolic execution of the compiler on source text with symbolic characters, escapes and UTF-8 sequences; SMT comparison of every code unit, the terminator and the array size in the emitted data'
EXPLAIN = 'Each task is a string literal template whose characters, escape digits or code points are solver variables. The bytes found through the emitted pointer, in static arrays and in automatic arrays are compared with the code units C11 prescribes, for all characters at once.'
def check(c):
    r = c.rng; cases = []; N = 150 if c.quick else 1500
    hx = lambda n, lead='': lead + ''.join(r.choice(['9', 'a', 'A'] if i < 2 else list('0123456789abcdefABCDEF')) for i in range(n))
    def piece(w, after):
        k = r.randrange(15)
        if k < 4: return ('~q' if after else '~p'), False
        if k < 5: return '~e', False
        if k < 7: n = r.randrange(1, 4); return '~o%d' % n, n < 3 or w == 0
        if k < 9: n = r.choice([1, 2, 2] if w == 1 else [1, 2, 3, 4] if w == 2 else [1, 2, 4, 7, 8]); return '~x%s;' % hx(n), True
        if k < 10: return r.choice(['~u%s;' % hx(4), '~u00%s;' % hx(2), '~u0%s;' % hx(3), '~ud7%s;' % hx(2), '~u20aC;', '~u00%s;' % 'a9']), False
        if k < 11: return r.choice(['~U000%s;' % hx(5), '~U0000%s;' % hx(4), '~U0010%s;' % hx(4), '~U0001%s;' % hx(4)]), False
        if k < 13: return '~t%d' % r.choice([2, 2, 3, 3, 4]), False
        if k < 14: return r.choice(['~s', '~r', '~s~s']), after
        return None, False
    for i in range(N):
        w = r.choice([1, 1, 1, 2, 2, 4]); pre = {1: ['', '', 'u8'], 2: ['L', 'u', 'L'], 4: ['U']}[w]; p = r.choice(pre)
        body = ''; after = False; esc = 0; n = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6]) 
        for _ in range(n):
            s, a = piece(w, after)
            if s is None: # adjacent literals: the prefix of one applies to all
                body += '~b"%s%s";' % (r.choice(['', ' ', '\n', ' /* c */ ', '\t// "x\n', '  ']), r.choice([p, ''] if p else ['', '']) if True else ''); after = False; continue
            if ('e' in s[:2]): 
                esc += 1
                if esc > 1: continue
            body += s; after = a
        # concatenated literals where only a later one carries the prefix
        first = p
        if '~b"' in body and p and r.random() < 0.3: 
            j = body.index('~b"'); k = body.index(';', j)
            first = ''; body = body[:j] + '~b" ' + p + '";' + body[k + 1:]
        cases.append((first, body, w))
    T = ['#include "%s/harness/lit.h"\n' % VERIF, 'static const struct { const char *p, *t; u32 w; } cs[] = {%s};' % ','.join('{%s,%s,%d}' % (q(p), q(b), w) for p, b, w in cases)]
    T.append(r'''
static const char *const ty[5] = {0, "char", "unsigned short", 0, "unsigned"};
static u32 at(const void *p, u32 w, u32 i) { return w == 1 ? ((u8*)p)[i] : w == 2 ? ((u16*)p)[i] : ((u32*)p)[i]; }
static void same(const char *name, const void *p, struct lit *L, u32 n, const char *what) { for (u32 i = 0; i < n; i++) hs_check(at(p, L->width, i) == (i < L->n ? L->unit[i] & (L->width == 1 ? 0xff : L->width == 2 ? 0xffff : ~0u) : 0), msg(name, what)); }
void main_(void) {
  u32 t = hs_task(sizeof cs / sizeof *cs), w = cs[t].w; struct lit B; build(&B, cs[t].t, w, 0); const char *name = cs[t].t; if (!*name) name = "empty string"; struct lit L = B; L.len = 0;
  for (const char *s = cs[t].p; *s; s++) put(&L, *s); put(&L, '"'); for (u32 i = 0; i < B.len; i++) put(&L, B.text[i]); put(&L, '"');
  u32 which = hs_choice(5); char src[2048], *s = src; *s = 0; struct img I; u64 a[2]; u32 n = L.n;
  switch (which) {
    case 0: s = sapp(sapp(sapp(s, "const "), ty[w]), " *f(void){ return @; }"); break;
    case 1: s = sapp(sapp(s, ty[w]), " g[] = @; int z = sizeof g; int s(void){ return sizeof(@); }\n"); s = sapp(sapp(sapp(s, "struct { char c; "), ty[w]), " s[40]; char d; } v = { 1, @, 2 };\n"); s = sapp(sapp(sapp(s, "const "), ty[w]), " h[40] = { @ };\n"); 
      if (n) { s = sapp(sapp(s, ty[w]), " x[#] = @;\n"); } s = sapp(sapp(s, ty[w]), " y[2][40] = { {@}, @ };"); break;
    case 2: s = sapp(sapp(sapp(sapp(sapp(s, "int f("), ty[w]), " *o){ "), ty[w]), " a[] = @; for (unsigned i = 0; i < sizeof a / sizeof *a; i++) o[i] = a[i]; return sizeof a; }"); break;
    case 3: s = sapp(sapp(s, ty[w]), " f(unsigned i){ return @[i]; }"); break;
    case 4: s = sapp(sapp(sapp(sapp(sapp(s, "const "), ty[w]), " *p = @ + #; int f("), ty[w]), " *o){ struct { char c; "); s = sapp(sapp(s, ty[w]), " s[40]; char d; } v = { 1, @, 2 }; for (int i = 0; i < 40; i++) o[i] = v.s[i]; return v.c + v.d; }"); break;
  }
  if (which == 1 && L.len * 7 > 1400) hs_error("literal too long");
  make_source(src, &L); hs_note("source", g_src, g_srclen); compile(name, &I); void *o = hs_alloc(1024); a[0] = (u64)o;
  switch (which) {
    case 0: { u64 p = call0(&I, name, "f", a, 0); int in = 0; for (u32 i = 0; i < I.nsec; i++) in |= p >= I.secbase[i] && p + (n + 1) * w <= I.secbase[i] + I.secsize[i]; hs_check(in, msg(name, "the literal is outside of the emitted data")); same(name, (void*)p, &L, n + 1, "contents of the literal"); break; }
    case 1: same(name, (void*)sym_addr(&I, "g"), &L, n + 1, "contents of an array of unknown size"); hs_check(*(u32*)sym_addr(&I, "z") == (n + 1) * w, msg(name, "size of an initialised array")); hs_check((u32)call0(&I, name, "s", a, 0) == (n + 1) * w, msg(name, "sizeof the literal"));
      { u8 *v = (u8*)sym_addr(&I, "v"); hs_check(v[0] == 1 && v[w + 40 * w] == 2, msg(name, "neighbouring members")); same(name, v + w, &L, 40, "contents of a member array"); } same(name, (void*)sym_addr(&I, "h"), &L, 40, "contents of a longer array");
      if (n) same(name, (void*)sym_addr(&I, "x"), &L, n, "contents of an array without terminator"); same(name, (void*)sym_addr(&I, "y"), &L, 40, "contents of an array of arrays"); same(name, (void*)(sym_addr(&I, "y") + 40 * w), &L, 40, "contents of the second array of arrays"); break;
    case 2: hs_check((u32)call0(&I, name, "f", a, 1) == (n + 1) * w, msg(name, "size of an automatic array")); same(name, o, &L, n + 1, "contents of an automatic array"); break;
    case 3: for (u32 i = 0; i <= n; i++) { a[0] = i; hs_check((u32)call0(&I, name, "f", a, 1) << (32 - 8 * w) >> (32 - 8 * w) == (i < n ? L.unit[i] & (w == 1 ? 0xff : w == 2 ? 0xffff : ~0u) : 0), msg(name, "subscript of the literal")); } break;
    case 4: hs_check((u32)call0(&I, name, "f", a, 1) == 3, msg(name, "neighbouring automatic members")); same(name, o, &L, 40, "contents of an automatic member array");
      { u8 *p = *(u8**)sym_addr(&I, "p"); struct lit M = L; same(name, p - n * w, &L, n + 1, "contents at a pointer in static data"); } break;
  }
  hs_reach("strings");
}
''')
    c.programs += len(cases); c.extra['literal_templates'] = len(cases)
    c.harness('strings', '\n'.join(T), expect=('strings',), deadline=100 if c.quick else 800)
    c.bounds += ['up to 6 pieces per literal: printable characters, simple escapes, octal and hexadecimal escapes of every length, universal character names, UTF-8 sequences of two to four bytes, line splices, adjacent literals; prefixes none, u8, L, u, U', 'every character, octal digit and code point symbolic; two hexadecimal digits per escape symbolic within each digit class']
    c.assumptions += ['line splices inside an escape sequence are not covered', 'raw bytes that are not UTF-8 are covered by C16 only']
