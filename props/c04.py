from gen import *
from vlib import Case, const_fn
LEVEL = 'translation_validation'
TECHNIQUE = 'symbolic execution of the compiler on source text whose constant digits are symbolic, and of the code it emits; SMT equality with the same expression evaluated at run time by the reference'
EXPLAIN = 'The digits of the constants in the source are symbolic (22 octal digits denote every 64-bit value, a cast selects the type), so one run of the compiler decides all values of the constants: the tokenizer, the constant folder, the choice of instruction and immediate and the emitted code are executed symbolically, and the result is compared with the expression evaluated on run-time values.'
ALLT = INT_T + ['_Bool']
def width(t): return 64 if SIZE[promote(t)] == 8 else 32
def sh_lim(t): return '<%d,' % width(t)
class K:
    """Collects functions with symbolic constants and packs them into files."""
    def __init__(self, c, prefix, per, pre=''): self.c, self.prefix, self.per, self.pre, self.fns, self.n = c, prefix, per, pre, [], 0
    def add(self, text, sig, budget=0): self.fns.append((text.replace('$f', '$%s%d' % ('x', self.n)), '$x%d' % self.n, sig, budget)); self.n += 1
    def cases(self):
        out = []
        for i, ch in enumerate(chunks(self.fns, self.per)):
            S = []; R = []; F = []
            for j, (t, n, s, b) in enumerate(ch):
                a, r = const_fn(t, n, s, j); S.append(a); R.append(r); F.append((n, s, b))
            out.append(Case('%s%d' % (self.prefix, i), self.pre + '\n' + '\n'.join(S) + '\n', F, ref=self.pre + '\n' + '\n'.join(R) + '\n'))
        return out
def undef(o, a, b): # limits on the second constant that keep the expression defined
    if o in ('<<', '>>'): return sh_lim(a)
    if o in '/%': return '>1<127,' # avoids 0 and -1 in every type
    return ''
def check(c):
    r = c.rng; cases = []
    k = K(c, 'bin', 12)
    pairs = [(a, b) for a in ALLT for b in ALLT]
    for o in BIN + ['<<', '>>']:
        for a, b in (r.sample(pairs, 20) if c.quick else pairs):
            k.add('long long $f$(void){ return (%s)$0$ %s (%s)$1$; }' % (a, o, b), '8CC' + undef(o, a, b))
            k.add('int $f$(void){ return sizeof((%s)$0$ %s (%s)$1$) * 2 + ((((%s)$0$ %s (%s)$1$) | -1) < 0); }' % (a, o, b, a, o, b), '4CC' + undef(o, a, b))
    cases += k.cases(); k = K(c, 'un', 12)
    for a in ALLT:
        for o in '+-~!': k.add('long long $f$(void){ return %s(%s)$0$; }' % (o, a), '8C')
        for b in ALLT: k.add('long long $f$(void){ return (%s)(%s)$0$; }' % (b, a), '8C')
        for f in ('float', 'double'):
            small = SIZE[a] < 8
            if small: k.add('long long $f$(void){ return (long long)((%s)(%s)$0$ * 1.5f + (%s)0.25); }' % (f, a, f), '8C')
            k.add('long long $f$(void){ return (long long)(%s)((%s)$0$ %s); }' % (f, a, '/ 4' if not small and a != '_Bool' else ''), '8C')
            k.add('long long $f$(void){ return (%s)$0$ < (%s)1000.5; }' % (a, f), '8C')
    cases += k.cases(); k = K(c, 'ctl', 10)
    for _ in range(30 if c.quick else 200):
        a, b, d = r.choice(ALLT), r.choice(ALLT), r.choice(ALLT)
        k.add('long long $f$(void){ return (%s)$0$ ? (%s)$1$ : (%s)$2$; }' % (a, b, d), '8CCC')
        k.add('int $f$(void){ return (%s)$0$ && (%s)$1$ || (%s)$2$; }' % (a, b, d), '4CCC')
        k.add('int $f$(void){ return (%s)$0$ && 1 / 1 == 1 || !(%s)$1$ && 0; }' % (a, b), '4CC')
    cases += k.cases(); k = K(c, 'nest', 6)
    for d, cnt in ((2, 40), (3, 60), (4, 30), (5, 8)) if c.quick else ((2, 300), (3, 500), (4, 300), (5, 100)):
        for _ in range(cnt):
            ts = [r.choice(ALLT) for _ in range(3)]; g = ExprGen(r, [('(%s)$%d$' % (t, i), t) for i, t in enumerate(ts)], div=False, lits=0.3)
            e, t = g.gen(d)
            for i in range(3):
                if '$%d$' % i not in e: e = '(%s | ((%s)$%d$ & 0))' % (e, ts[i], i)
            k.add('long long $f$(void){ return %s; }' % e, '8CCC')
    cases += k.cases(); k = K(c, 'ctx', 6)
    for _ in range(40 if c.quick else 300):
        a, b = r.choice(INT_T), r.choice(INT_T); o = r.choice('+-*&|^'); e = '(%s)$0$ %s (%s)$1$' % (a, o, b); t = r.choice(INT_T)
        k.add('long long $f$(void){ static %s x = %s; return x; }' % (t, e), '8CC')
        k.add('long long $f$(void){ static struct { char c; %s m; %s n[3]; } x = { 1, %s, { 2, (%s)(%s), 3 } }; return x.m + x.n[1] + x.n[2] + x.c + x.n[0]; }' % (t, a, e, a, e), '8CC')
        k.add('long long $f$(void){ static %s x[4] = { [2] = %s }; return x[2] - x[1]; }' % (t, e), '8CC')
        k.add('int $f$(int p){ return p == (int)(%s); }' % e, '4CC4')
    cases += k.cases()
    # enumerators, case labels, array sizes, bit-field widths, static assertions: the source gets the constant expression, the reference its run-time value
    k2 = []; n = 0
    def both(src, ref, sig):
        nonlocal n
        cs = sig.count('C'); N = '$y%d' % n; idx = 0
        S = re.sub(r'\$(\d)\$', lambda m: '0o@' + chr(48) + m.group(1) + '@' * 19 + 'ull', src).replace('$f', N); R = re.sub(r'\$(\d)\$', r'c_\1', ref).replace('$f', N)
        k2.append(Case('dcl%d' % n, S, [(N, sig)], ref=R)); n += 1
    import re
    T3 = ['int', 'unsigned', 'short', 'unsigned char', 'signed char', 'long long', 'unsigned long long']
    for _ in range(8 if c.quick else 60):
        a, b = r.choice(INT_T), r.choice(INT_T); o = r.choice('+-&|^'); e = '((%s)$0$ %s (%s)$1$)' % (a, o, b); P = 'unsigned long long c_0, unsigned long long c_1'
        both('enum $e { A$ = (int)%s, B$, C$ = A$ ^ 5 }; long long $f(void){ return (long long)A$ * 3 + (unsigned)B$ + C$ + sizeof(A$); }' % e, 'long long $f(%s){ int A = (int)%s; return (long long)A * 3 + (unsigned)(A + 1) + (A ^ 5) + 4; }' % (P, e), '8CC')
        both('int $f(void){ char x[(%s & 127) + 1]; return sizeof(x) + sizeof(char[2][(%s & 63) + 1]); }' % (e, e), 'int $f(%s){ return (int)((%s & 127) + 1 + 2 * ((%s & 63) + 1)); }' % (P, e, e), '4C<128,C<1,')
        both('static int arr$[(%s & 31) + 2]; int $f(void){ return sizeof arr$; }' % e, 'int $f(%s){ return (int)((%s & 31) + 2) * 4; }' % (P, e), '4C<32,C<1,')
        t = r.choice(T3)
        both('int $f(%s p){ switch(p){ case %s: return 1; default: return 2; case (int)%s + 1: return 3; } }' % (t, e, e), 'int $f(%s, %s p){ %s q = p; if (q == (%s)%s) return 1; if (q == (%s)((int)%s + 1)) return 3; return 2; }' % (P, t, promote(t), promote(t), e, promote(t), e), '4CC' + CODE[t])
        both('struct $s { unsigned m : (%s & 15) + 1; unsigned k : 32 - ((%s & 15) + 1); }; int $f(unsigned p){ struct $s x; x.k = 0; x.m = p; return x.m + (x.k != 0) + sizeof(x); }' % (e, e), 'int $f(%s, unsigned p){ int w = (%s & 15) + 1; return (p & ((1u << w) - 1)) + 4; }' % (P, e), '4C<16,C<1,4')
        both('int $f(void){ _Static_assert(((%s)$0$ %s (%s)$1$) == ((%s)$0$ %s (%s)$1$), "x"); return 1; }' % (a, o, b, a, o, b), 'int $f(%s){ return 1; }' % P, '4CC')
    k2 = [x for x in k2]
    k = K(c, 'imm', 10)
    for o in BIN + ['<<', '>>']:
        for _ in range(6 if c.quick else 40):
            a, b = r.choice(INT_T), r.choice(INT_T)
            lim = undef(o, a, b)
            k.add('long long $f$(%s p0){ return p0 %s (%s)$0$; }' % (a, o, b), '8C' + lim + CODE[a])
            if o not in '/%': k.add('long long $f$(%s p0){ return (%s)$0$ %s p0; }' % (a, b, o), '8C' + CODE[a] + ('<%d,' % width(b) if o in ('<<', '>>') else ''))
    for o in ['+=', '-=', '*=', '&=', '|=', '^=', '<<=', '>>=', '=', '/=', '%=']:
        for _ in range(6 if c.quick else 40):
            a, b = r.choice(INT_T), r.choice(INT_T); lim = undef(o[:-1], a, b) if o != '=' else ''
            k.add('long long $f$(%s *p, %s q){ q %s (%s)$0$; *p %s (%s)$0$; return q ^ *p; }' % (a, a, o, b, o, b), '8C' + lim + 'P8,' + CODE[a])
    cases += k.cases() + k2
    c.bounds += ['every constant: all 64-bit values, converted by a cast to each integer type; second operands of / and % between 1 and 127, shift counts below the width', 'sampled type pairs for every operator, nested constant expressions up to depth 5, each context of a constant expression']
    c.diff('const', cases, deadline=55 if c.quick else 800)
