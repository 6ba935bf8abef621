from gen import *
LEVEL = 'translation_validation'
TECHNIQUE = 'symbolic execution of the compiler (LLVM IR) and of the SSE code it emits; SMT equivalence with the C reference over bit patterns, each IEEE operation an uninterpreted function shared by both sides'
EXPLAIN = 'IEEE operations are uninterpreted functions of their operand bit patterns on both sides, so agreement means the emitted code applies the same operations to the same operands in the same precision; comparisons, sign operations, moves and conversions are interpreted bit-precisely around them. Counterexamples are replayed with real IEEE arithmetic.'
F = ['float', 'double']; FL = ['0.0', '1.0', '-1.0', '0.5', '2.5', '1e10', '3.14159265358979', '1e-300', '0.1', '0.1f', '1.0f', '-0.0', '2.0f', '16777216.0f', '1e30f', '100.25', '123456789.0']
def forms(t, i, k):
    p = 'p%d' % i
    return [('', p), ('%s l%d = %s;' % (t, i, p), 'l%d' % i), ('$g%d = %s;' % (k * 4 + i, p), '$g%d' % (k * 4 + i)), ('%s q%d = %s; %s *m%d = &q%d;' % (t, i, p, t, i, i), '*m%d' % i), ('struct $S%d s%d; s%d.m = %s;' % (k, i, i, p), 's%d.m' % i), ('struct $S%d u%d; struct $S%d *v%d = &u%d; v%d->n[2] = %s;' % (k, i, k, i, i, i, p), 'v%d->n[2]' % i), ('%s w%d[5]; int x%d = 3; w%d[x%d] = %s;' % (t, i, i, i, i, p), 'w%d[x%d]' % (i, i)), ('', '(%s)%s' % (t, p)), ('', '(%s + 0)' % p), ('', '(p%d, %s)' % (i, p))]
class FGen:
    def __init__(self, r, leaves): self.r, self.l = r, leaves
    def gen(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.1:
            if r.random() < 0.8: return r.choice(self.l)
            x = r.choice(FL); return (x if x[0] != '-' else '(%s)' % x, 'float' if x[-1] == 'f' else 'double')
        k = r.random(); e, t = self.gen(d - 1); fl = t in F
        def com(a, b): return 'double' if 'double' in (a, b) else 'float' if 'float' in (a, b) else usual(a, b)
        if k < .08: return ('(-%s)' % self.par(e), t if fl else promote(t))
        if k < .18: n = r.choice(F + (['int', 'long long'] if not fl else [])); return ('((%s)%s)' % (n, self.par(e)), n)
        if k < .24: return ('(!%s)' % self.par(e), 'int')
        f, u = self.gen(d - 1 if r.random() < .7 else d - 2)
        if k < .32: c, _ = self.gen(d - 2); return ('(%s ? %s : %s)' % (c, e, f), com(t, u))
        if k < .40: return ('(%s %s %s)' % (e, r.choice(REL), f), 'int')
        if k < .46: return ('(%s %s %s)' % (e, r.choice(['&&', '||']), f), 'int')
        ops = ['+', '-', '*', '/'] if fl or u in F else ['+', '-', '*']
        return ('(%s %s %s)' % (e, r.choice(ops), f), com(t, u))
    def par(self, e): return e if e[0] == '(' else '(%s)' % e
# ranges in which float -> integer conversion is defined are enforced inside the program itself
RANGE = {'_Bool': None, 'char': ('-129.0', '128.0'), 'signed char': ('-129.0', '128.0'), 'unsigned char': ('-1.0', '256.0'), 'short': ('-32769.0', '32768.0'), 'unsigned short': ('-1.0', '65536.0'), 'int': ('-2147483648.0', '2147483647.0'), 'long': ('-2147483648.0', '2147483647.0'), 'unsigned': ('-1.0', '4294967295.0'), 'unsigned long': ('-1.0', '4294967295.0'), 'long long': ('-9223372036854775808.0', '9223372036854774784.0'), 'unsigned long long': ('-1.0', '18446744073709551615.0')}
def check(c):
    r = c.rng; fns = []; n = 0
    def add(ret, args, body, sig, pre=''):
        nonlocal n
        fns.append(('%s %s $f%d(%s){ %s }' % (pre, ret, n, args, body), '$f%d' % n, sig)); n += 1
    pre = '\n'.join('struct $S%d { char c; %s m; %s n[3]; }; ' % (k, t, t) + ' '.join('%s $g%d;' % (t, k * 4 + i) for i in range(4)) for k, t in enumerate(F + ['int', 'long long', 'unsigned', 'unsigned char', 'short', 'unsigned long long']))
    K = {t: k for k, t in enumerate(F + ['int', 'long long', 'unsigned', 'unsigned char', 'short', 'unsigned long long'])}
    AR = ['+', '-', '*', '/']
    def com(a, b): return 'double' if 'double' in (a, b) else 'float'
    for a in F + INT_T + ['_Bool']: # every operator on every type pair with a floating operand
        for b in F + INT_T + ['_Bool']:
            if a not in F and b not in F: continue
            for o in AR: add(com(a, b), '%s a, %s b' % (a, b), 'return a %s b;' % o, CODE[com(a, b)] + CODE[a] + CODE[b])
            for o in REL + ['&&', '||']:
                add('int', '%s a, %s b' % (a, b), 'return a %s b;' % o, '4' + CODE[a] + CODE[b])
                add('int', '%s a, %s b' % (a, b), r.choice(['if(a %s b) return 7; return 9;', 'int n = 0; while(a %s b){ n++; b = 1; if(n == 2) break; a = 0; } return n;', 'return a %s b ? 3 : 4;', 'return !(a %s b);', 'int x = (a %s b) + 2; return x;', 'if(!(a %s b)) return 1; else return 2;', 'for(int i = 0; i < 2; i++) if(a %s b) return i + 5; return 1;']) % o, '4' + CODE[a] + CODE[b])
            add('int', '%s a, %s b' % (a, b), 'return sizeof(a + b) * 10 + sizeof(a < b) + 100 * sizeof(1 ? a : b);', '4' + CODE[a] + CODE[b])
            add(com(a, b), '%s a, %s b, int c' % (a, b), 'return c ? a : b;', CODE[com(a, b)] + CODE[a] + CODE[b] + '4')
    for a in F + INT_T + ['_Bool']: # conversions
        for b in F:
            add(b, '%s a' % a, 'return a;', CODE[b] + CODE[a]); add(b, '%s a' % a, 'return (%s)a;' % b, CODE[b] + CODE[a]); add(b, '%s a, %s b' % (a, b), 'b = a; return b;', CODE[b] + CODE[a] + CODE[b])
            add('double', '%s a' % a, 'return (double)(%s)a;' % b, 'd' + CODE[a]); add('float', '%s a' % a, 'return (float)(%s)a;' % b, 'f' + CODE[a])
            if a in F: continue
            rg = RANGE[a]; guard = 'if(!(x > %s && x < %s)) return 0;' % rg if rg else ''
            add('long long', '%s x' % b, guard + ' return (%s)x;' % a, '8' + CODE[b]); add(a, '%s x' % b, guard + ' %s y = x; return y;' % a, CODE[a] + CODE[b]); add(a, '%s x' % b, guard + ' return x;', CODE[a] + CODE[b])
            add('long long', '%s x, %s *p' % (b, a), guard + ' *p = x; return *p;' if a != '_Bool' else '_Bool y; y = x; return y;', '8' + CODE[b] + 'P16,')
    for t in F: # unary, ++/--, conditions
        for f in forms(t, 0, K[t]):
            add(t, '%s p0' % t, '%s return -%s;' % f, CODE[t] * 2); add('int', '%s p0' % t, '%s return !%s;' % f, '4' + CODE[t]); add(t, '%s p0' % t, '%s return +%s;' % f, CODE[t] * 2); add(t, '%s p0' % t, '%s return - -%s;' % f, CODE[t] * 2)
            add('int', '%s p0' % t, '%s if(%s) return 1; return 2;' % f, '4' + CODE[t]); add('int', '%s p0' % t, '%s int n = 0; while(%s){ if(n++) break; } return n;' % f, '4' + CODE[t]); add('int', '%s p0' % t, '%s return %s ? 5 : 6;' % f, '4' + CODE[t]); add('_Bool', '%s p0' % t, '%s return %s;' % f, '1' + CODE[t]); add('int', '%s p0, int q' % t, '%s return %s && q;' % f, '4' + CODE[t] + '4'); add('int', '%s p0, int q' % t, '%s return q || !%s;' % f, '4' + CODE[t] + '4')
            if '(' in f[1] or ',' in f[1]: continue
            lv = f[1] if f[1][0] != '*' else '(%s)' % f[1]
            for e in ('++%s', '--%s', '%s++', '%s--'): add(t, '%s p0' % t, '%s %s r = %s; return r / %s;' % (f[0], t, e % lv, f[1]), CODE[t] * 2); add(t, '%s p0' % t, '%s %s; return %s;' % (f[0], e % lv, f[1]), CODE[t] * 2)
    T2 = list(K)
    for a in T2: # compound assignment, simple assignment between every pair
        for b in T2:
            if a not in F and b not in F: continue
            for o in ['+=', '-=', '*=', '/=', '=']:
                for _ in range(2 if c.quick else 6):
                    f = r.choice([x for x in forms(a, 0, K[a]) if '(' not in x[1]]); h = r.choice(forms(b, 1, K[b])); R = a
                    if a in F: add(a, '%s p0, %s p1' % (a, b), '%s %s %s %s %s; return %s;' % (f[0], h[0], f[1], o, h[1], f[1]), CODE[a] * 2 + CODE[b]); add('double', '%s p0, %s p1' % (a, b), '%s %s return (%s %s %s) * 3;' % (f[0], h[0], f[1], o, h[1]), 'd' + CODE[a] + CODE[b])
                    else: # the converted result has to be in range: keep the operands small
                        lo, hi = ('0', '100') if unsigned(a) else ('-100', '100')
                        res = 'p0 %s p1' % o[0] if o != '=' else 'p1'
                        add('long long', '%s p0, %s p1' % (a, b), 'if(!(%s > %s && %s < %s)) return 0; %s %s long long z = (%s %s %s); return z + %s;' % (res, lo, res, hi, f[0], h[0], f[1], o, h[1], f[1]), '8' + CODE[a] + CODE[b])
    for t in F: # operand placements
        for o in AR + REL:
            for _ in range(20 if c.quick else 120):
                u = r.choice(T2); f, h = r.choice(forms(t, 0, K[t])), r.choice(forms(u, 1, K[u]))
                if f[1] == h[1]: continue
                R = com(t, u) if o in AR else 'int'
                if r.random() < .5: add(R, '%s p0, %s p1' % (t, u), '%s %s return %s %s %s;' % (f[0], h[0], f[1], o, h[1]), CODE[R] + CODE[t] + CODE[u])
                else: add(R, '%s p0, %s p1' % (t, u), '%s %s return %s %s %s;' % (f[0], h[0], h[1], o, f[1]), CODE[R] + CODE[t] + CODE[u])
            for l in FL: add('double' if o in AR else 'int', '%s p0' % t, 'return p0 %s %s;' % (o, l), ('d' if o in AR else '4') + CODE[t]); add('double' if o in AR else 'int', '%s p0' % t, 'return %s %s p0;' % (l, o), ('d' if o in AR else '4') + CODE[t])
    cases = cases_of('op', fns, 40, pre=pre); fns = []
    for depth, cnt in ((2, 200), (3, 300), (4, 200), (5, 60), (6, 20), (8, 4)) if c.quick else ((2, 1000), (3, 2000), (4, 2000), (5, 1000), (6, 400), (8, 60)):
        for _ in range(cnt):
            ts = [r.choice(F + F + ['int', 'long long', 'unsigned', 'short', 'unsigned long long']) for _ in range(4)]; g = FGen(r, [('p%d' % i, t) for i, t in enumerate(ts)]); e, t = g.gen(depth)
            if t not in F and r.random() < .5: e, t = '(%s) * 1.0' % e, 'double'
            add(t, ', '.join('%s p%d' % (x, i) for i, x in enumerate(ts)), 'return %s;' % e, CODE[t] + ''.join(CODE[x] for x in ts))
    for m in (4, 8, 12, 15, 16, 17, 20, 24): # more live values than registers
        for t in F:
            for _ in range(2):
                ts = [t, t, r.choice(T2), r.choice(F)]; sub = lambda: '(p%d %s p%d)' % (r.randrange(4), r.choice('+-*'), r.randrange(2))
                e = sub()
                for _ in range(m): e = '(%s %s %s)' % (sub(), r.choice('+-*/'), e)
                add('double', ', '.join('%s p%d' % (x, i) for i, x in enumerate(ts)), 'return %s;' % e, 'd' + ''.join(CODE[x] for x in ts))
                add('double', ', '.join('%s p%d' % (x, i) for i, x in enumerate(ts)), 'return %s + $h%d(p0, %s, p3);' % (e, n, sub()), 'd' + ''.join(CODE[x] for x in ts), pre='double $h%d(double a, %s b, double c){ return a * b - c; }' % (n, t))
    cases += cases_of('nest', fns, 25, pre=pre)
    c.diff('fp', cases, deadline=45 if c.quick else 800, extra=['--solver-ms', '2500' if c.quick else '20000'])
    c.bounds += ['all bit patterns of every operand; conversions to integer types guarded to the defined range', 'every operator on every type pair with a floating operand; sampled placements and literals; random nestings up to depth 8, up to 25 live values']
    c.assumptions += ['IEEE operations are uninterpreted functions: equivalence of code that reassociates to a mathematically equal but differently computed result would be reported only after native replay shows different bits']
