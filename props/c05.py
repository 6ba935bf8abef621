"""C05: values and types of literals, with symbolic digits and characters."""
LEVEL = 'checked'
TECHNIQUE = 'symbolic execution of the compiler on source text with symbolic digits; SMT comparison of the values and types in the emitted code with the C11 rules'
EXPLAIN = 'Each task is a literal template whose digits or characters are solver variables. The compiler runs on the text; value, size, signedness and type of the literal in several contexts are compared with the C11 rules for all digits at once.'
SUF = ['', 'u', 'l', 'ul', 'lu', 'll', 'ull', 'llu']
MS = ['i8', 'i16', 'i32', 'i64', 'ui8', 'ui16', 'ui32', 'ui64']
def sfx(s, cased=True): return ''.join(('~c' if ch.isalpha() else '~=') + ch for ch in s) if cased and len(s) <= 2 else ''.join('~=' + ch for ch in s)
def check(c):
    r = c.rng; ints = []
    def add(t, base, suf): ints.append((t, base, suf))
    def sep(ds): # digit separators between digits
        if r.random() < 0.6 or len(ds) < 2: return ''.join(ds)
        k = r.randrange(1, len(ds)); return ''.join(ds[:k]) + "~='" + ''.join(ds[k:])
    def digits(base, n):
        if base == 10:
            sy = set(range(n)) if n <= 3 else set(r.sample(range(n), 2 if c.quick else 3)) | {n - 1}; return ['~9' if i in sy else '~H' + r.choice('0123456789') for i in range(n)]
        if base == 8: return ['~7'] * n
        if base == 2: sy = set(r.sample(range(n), min(n, 4))) | ({0} if r.random() < 0.5 else set()); return ['~1' if i in sy else '~H' + r.choice('01') for i in range(n)]
        sy = set(r.sample(range(n), min(n, 2))); return ['~h' + r.choice('9aA') if i in sy else '~H' + r.choice('0123456789abcdefABCDEF') for i in range(n)]
    for suf in SUF + MS:
        for base in (10, 8, 16, 2):
            lens = {10: [1, 3, 9, 10, 11, 18, 19], 8: [1, 3, 10, 11, 12, 21, 22], 16: [1, 2, 7, 8, 9, 15, 16], 2: [1, 8, 31, 32, 33, 63, 64]}[base]
            if suf in MS: lens = lens[:1] + [r.choice(lens[1:])]
            elif c.quick: lens = [lens[0], lens[3], lens[-1], r.choice(lens)]
            for n in lens:
                # a MSVC suffix names the type: only values of that type are meaningful
                lim = int(suf.lstrip('ui')) if suf in MS else 64
                if suf in MS: n = min(n, {10: {8: 2, 16: 4, 32: 9, 64: 18}, 8: {8: 2, 16: 4, 32: 10, 64: 20}, 16: {8: 1, 16: 3, 32: 7, 64: 15}, 2: {8: 7, 16: 15, 32: 31, 64: 63}}[base][lim])
                ds = digits(base, n)
                if base == 10 and n > 1: ds[0] = '~H' + r.choice('123456789') if n < 19 or 'u' in suf else '~H' + r.choice('123456789')
                if base == 8 and n == 22: ds[0] = '~1'
                pre = {10: '', 8: r.choice(['~=0', '~=0', '~=0~=o', '~=0~cO']), 16: '~=0~cx', 2: '~=0~cb'}[base]
                if base == 10 and n == 1: ds = ['~H' + r.choice('123456789')] if r.random() < 0.5 else ['~9']
                if base == 8 and pre == '~=0' and n == 1: pass
                add(pre + sep(ds), base, suf)
                if base == 16 and not c.quick:
                    for _ in range(3): add(pre + sep(digits(base, n)), base, suf)
            if base == 10 and 'u' in suf and suf not in MS: add('1~7' + ''.join(digits(10, 18)), 10, suf) # up to 2^64 - 1
    for suf in ('', 'u', 'll'): # values at the limits of the types
        for k in (31, 32, 63, 64):
            for d in (-1, 0):
                v = (1 << k) + d
                if v >= 1 << 64 or v >= 1 << 63 and 'u' not in suf: continue
                s = str(v); add(''.join('~H' + ch for ch in s[:-1]) + '~9', 10, suf)
                if v < 1 << 64: s = '%x' % v; add('~=0~=x' + ''.join('~H' + ch for ch in s[:-1]) + '~h' + ('9' if s[-1] in '0123456789' else 'a'), 16, suf); s = '%o' % v; add('~=0' + ''.join('~H' + ch for ch in s[:-1]) + '~7', 8, suf)
    kind = {s: i for i, s in enumerate(SUF + MS)}
    chars = []
    for pre, w in (('', 1), ('L', 2), ('u', 2), ('U', 4)):
        for body in ['~p', '~e', '~o1', '~o2', '~o3', '~x9;', '~xa;', '~x99;', '~xA9;', '~x9a;', '~xaA;', '~x09;', '~x0a9;', '"', '?', ' ', 'a~s', '~s~p', '~p~s'][:]:
            b = body
            if b in '"? ': b = b
            chars.append((pre, w, b))
        if w > 1: chars += [(pre, w, b) for b in ['~t2', '~t3', '~x999;', '~x9a9A;', '~x7f9a;', '~u9999;', '~u2aA9;', '~ud7aA;', '~ue99A;', '~u00aa;', '~u00Fa;', '~u0024;'.replace('~u0024;', '~U0000a9A9;')]]
        if w == 4: chars += [(pre, w, b) for b in ['~t4', '~x999a9;', '~x9a999999;', '~U0009a9A9;', '~U0010a9A9;', '~U00019999;']]
    def units(b):
        return 'X'
    floats = []
    for t in ['~9.~9', '.~9~9', '~9.', '~9~9~9', '~9e~9', '~9E+~9~9', '~9.~9e-~9~9', '.~9E~9', '~9.e~9', '0~9.~9', '~9~9~9~9~9~9~9~9~9~9.~9~9~9~9~9~9~9~9~9~9~9~9', '179769313486231~9~9e293', '4.9406564584124~9e-324', '2.2250738585072~9~9e-308', '3.4028235~9e38', '1.17549~9~9e-38', '.0000~9~9', '~9~9e-~9', '1.~9~9~9~9~9~9~9~9~9~9~9~9~9~9~9~9~9~9~9']:
        for s in ['', 'f', 'F', 'l', 'L']:
            if s in ('', 'f') or r.random() < (0.25 if c.quick else 1):
                if t == '~9~9~9': 
                    if s in ('l', 'L', '', 'f', 'F'): continue # an integer
                floats.append((t, s))
                ps = [i for i in range(len(t)) if t[i] == '~']; keep = r.choice(ps); u = ''.join(('~9' if i == keep else r.choice('0123456789')) if ch == '~' else '' if i and t[i - 1] == '~' else ch for i, ch in enumerate(t)); floats.append((u, s))
    for t in ['0x~h9.~h9p~9', '0x~h9p-~9', '0X1.~h9~hap+~9', '0x.~hAp1~9', '0x1.~h9P~9']:
        for s in ['', 'f']: floats.append((t, s))
    floats = [f for f in floats if not (f[0].startswith('0x') and c.quick and r.random() < 0.3)]
    T = ['#include "%s/harness/lit.h"\n' % __import__('vlib').VERIF]
    q = __import__('vlib').cstr
    T.append('static const struct { const char *t; u32 base, kind; } ints[] = {%s};' % ','.join('{%s,%d,%d}' % (q(t), b, kind[s]) for t, b, s in [(t + sfx(s, r.random() < 0.7), b, s) for t, b, s in ints]))
    T.append('static const struct { const char *p, *t; u32 w; } chars[] = {%s};' % ','.join('{%s,%s,%d}' % (q(p), q(b), w) for p, w, b in chars))
    T.append('static const struct { const char *t, *s; } floats[] = {%s};' % ','.join('{%s,%s}' % (q(t), q(s)) for t, s in floats))
    T.append(r'''
#define N(a) (sizeof a / sizeof *a)
static u64 cut(u64 v, u32 size, int sgn) { if (size == 8) return v; u64 m = (1ull << 8 * size) - 1; v &= m; if (sgn && v >> (8 * size - 1)) v |= ~m; return v; }
static void integer(u32 t) {
  struct lit L; g_nsym = 0; build(&L, ints[t].t, 1, ints[t].base); u32 k = ints[t].kind; u64 v = L.value; const char *name = ints[t].t;
  u32 size; int sgn; // of the literal
  if (k >= 8) { static const u8 sz[4] = {1, 2, 4, 8}; size = sz[(k - 8) & 3]; sgn = k < 12; }
  else {
    int uns = k == 1 || k == 3 || k == 4 || k >= 6, ll = k >= 5, dec = ints[t].base == 10;
    if (uns) { sgn = 0; if (ll) size = 8; else size = v >> 32 ? 8 : 4; }
    else if (dec) { hs_assume(!(v >> 63)); sgn = 1; size = ll || v >> 31 ? 8 : 4; }
    else if (ll) { size = 8; sgn = !(v >> 63); }
    else if (v >> 32) { size = 8; sgn = !(v >> 63); } else { size = 4; sgn = !(v >> 31); }
  }
  int psgn = size < 4 ? 1 : sgn;
  make_source("unsigned long long v(void){ return @; }\nint s(void){ return sizeof(@); }\nint g(void){ return (0 ? @ : -1) < 0; }\nunsigned long long n(void){ return -@; }\nunsigned long long o(int a){ return a+@; }\nunsigned long long c(void){ return ~(@); }\n"
    "unsigned long long st = @; long long m[] = { -@, @-1 }; char arr[sizeof(@)]; int as(void){ return sizeof arr; }\nunsigned long long q(unsigned long long x){ return x&@; }\n"
    "int k(void){ return _Generic(@, char: 1, signed char: 1, unsigned char: 2, short: 3, unsigned short: 4, int: 5, unsigned: 6, long long: 7, unsigned long long: 8); }\n", &L);
  hs_note("source", g_src, g_srclen); struct img I; compile(name, &I); u64 a[1];
  hs_check(call0(&I, name, "v", a, 0) == v, msg(name, "value")); hs_check((u32)call0(&I, name, "s", a, 0) == size, msg(name, "size")); hs_check((u32)call0(&I, name, "g", a, 0) == psgn, msg(name, "signedness"));
  u32 ps = size < 4 ? 4 : size; hs_check(call0(&I, name, "n", a, 0) == cut(0 - v, ps, psgn), msg(name, "negated value")); hs_check(call0(&I, name, "c", a, 0) == cut(~v, ps, psgn), msg(name, "complement"));
  a[0] = hs_sym("x", 64); hs_check(call0(&I, name, "q", a, 1) == (a[0] & v), msg(name, "value as an operand"));
  hs_check(call0(&I, name, "o", a, 1) == cut(cut(a[0], 4, 1) + v, ps, psgn), msg(name, "value added to an int"));
  hs_check(*(u64*)sym_addr(&I, "st") == v, msg(name, "value in an initialiser")); hs_check(((u64*)sym_addr(&I, "m"))[0] == cut(0 - v, ps, psgn), msg(name, "negated value in an initialiser")); hs_check(((u64*)sym_addr(&I, "m"))[1] == cut(v - 1, ps, psgn), msg(name, "difference in an initialiser"));
  hs_check((u32)call0(&I, name, "as", a, 0) == size, msg(name, "array size"));
  u32 g = size == 8 ? 8 - sgn : size == 4 ? 6 - sgn : size == 2 ? 4 - sgn : 2 - sgn; hs_check((u32)call0(&I, name, "k", a, 0) == g, msg(name, "type"));
  hs_reach("integers");
}
static void character(u32 t) {
  struct lit L; g_nsym = 0; char b[128]; char *e = sapp(b, chars[t].p); *e++ = '\''; *e = 0; build(&L, chars[t].t, chars[t].w, 0); u32 w = chars[t].w; const char *name = chars[t].t;
  // the quotes and the prefix
  struct lit Q = L; u32 pl = slen(b); cpy(Q.text, b, pl); cpy(Q.text + pl, L.text, L.len); Q.text[pl + L.len] = '\''; Q.len = pl + L.len + 1;
  u64 v = L.n ? L.unit[0] : L.text[0]; if (L.n > 1) hs_error("more than one unit"); if (w == 1) v = (u64)(s64)(s8)v; u32 size = w == 1 ? 4 : w; int sgn = w != 4;
  make_source("unsigned long long v(void){ return @; }\nint s(void){ return sizeof(@); }\nint g(void){ return (0 ? @ : -1) < 0; }\nunsigned long long n(void){ return -@; }\nlong long st = @; int sw(int x){ switch(x){ case @: return 7; } return 9; }\nint e(int x){ return x == @; }\nint i(int x){ return @ + x; }\nenum { EN = (int)@ }; int en(void){ return EN; }\n", &Q);
  hs_note("source", g_src, g_srclen); struct img I; compile(name, &I); u64 a[1];
  hs_check(call0(&I, name, "v", a, 0) == v, msg(name, "value")); hs_check((u32)call0(&I, name, "s", a, 0) == size, msg(name, "size")); hs_check((u32)call0(&I, name, "g", a, 0) == sgn, msg(name, "signedness"));
  hs_check(call0(&I, name, "n", a, 0) == (w == 4 ? (u32)(0 - v) : 0 - v), msg(name, "negated value")); hs_check(*(u64*)sym_addr(&I, "st") == v, msg(name, "value in an initialiser"));
  a[0] = hs_sym("x", 64); hs_check((u32)call0(&I, name, "i", a, 1) == (u32)(a[0] + v), msg(name, "value added to an int")); hs_check((u32)call0(&I, name, "e", a, 1) == ((u32)a[0] == (u32)v), msg(name, "comparison"));
  hs_check((u32)call0(&I, name, "sw", a, 1) == ((u32)a[0] == (u32)v ? 7 : 9), msg(name, "case label")); hs_check((u32)call0(&I, name, "en", a, 1) == (u32)v, msg(name, "enumerator"));
  hs_reach("characters");
}
static void floating(u32 t) {
  struct lit L; g_nsym = 0; build(&L, floats[t].t, 1, 0); const char *name = floats[t].t; int f = (floats[t].s[0] | 32) == 'f'; 
  char *num = hs_alloc(300); cpy(num, L.text, L.len); num[L.len] = 0; union { u64 u; double d; } x; x.u = hs_strtod(num); union { u32 u; float f; } y; y.f = (float)x.d;
  if (floats[t].s[0]) put(&L, floats[t].s[0]);
  // one literal in the code per compilation: literals are interned by value, which would split the paths
  int few = 0; for (const char *q = floats[t].t; *q; q++) few += *q == '~'; u32 which = few > 1 ? 3 : hs_choice(4); static const char *const fn[4] = {"double v(void){ return @; }\n", "double v(void){ return -@; }\n", "float v(void){ return @; }\n", "double v(void){ return d; }\n"};
  char src[600]; sapp(sapp(src, "int s(void){ return sizeof(@); }\ndouble st = @, d = -@; float sf = @; int k(void){ return _Generic(@, float: 1, double: 2, default: 3); }\n"), fn[which]);
  make_source(src, &L); hs_note("source", g_src, g_srclen); struct img I; compile(name, &I); u64 a[1]; union { u64 u; double d; } w, z; w.d = f ? (double)y.f : x.d; struct call c;
  hs_check((u32)call0(&I, name, "s", a, 0) == (f ? 4 : 8), msg(name, "size")); hs_check((u32)call0(&I, name, "k", a, 0) == (f ? 1 : 2), msg(name, "type"));
  if (call_fn(&c, sym_addr(&I, "v"), a, 0, 0, 100000)) hs_fail(msg(name, "compiled code faults")); u64 r = *(u64*)c.c.xmm[0];
  if (which == 0) hs_check(r == w.u, msg(name, "value")); else if (which == 1 || which == 3) { z.d = f ? (double)-y.f : -x.d; hs_check(r == z.u, msg(name, "negated value")); } else hs_check((u32)r == y.u, msg(name, "value as float"));
  hs_check(*(u64*)sym_addr(&I, "st") == w.u, msg(name, "value in an initialiser")); hs_check(*(u32*)sym_addr(&I, "sf") == y.u, msg(name, "value in a float initialiser"));
  hs_reach("floats");
}
void main_(void) {
  u32 t = hs_task(N(ints) + N(chars) + N(floats));
  if (t < N(ints)) integer(t); else if ((t -= N(ints)) < N(chars)) character(t); else floating(t - N(chars));
}
''')
    c.programs += len(ints) + len(chars) + len(floats)
    c.harness('literals', '\n'.join(T), expect=('integers', 'characters', 'floats'), deadline=120 if c.quick else 800)
    c.extra['literal_templates'] = {'integers': len(ints), 'characters': len(chars), 'floats': len(floats)}
    c.bounds += ['integer literals: every digit symbolic for decimal (up to 20 digits), octal (22) and binary (64); two symbolic digits of each class per hexadecimal literal; all suffixes in either case; digit separators at sampled places',
                 'character constants: one symbolic character, escape or UTF-8 sequence; prefixes none, L, u, U', 'floating literals: symbolic digits in the listed shapes, with and without suffix']
    c.assumptions += ['strtod of the C runtime is correct: it is an uninterpreted function of the characters handed to it', 'the f suffix converts the nearest double to float (C11 permits either neighbour)', 'constants with several characters (implementation-defined) are not covered']
