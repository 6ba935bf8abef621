from gen import *
from vlib import Case
LEVEL = 'translation_validation'
TECHNIQUE = 'symbolic execution of the code the compiler emits for generated control flow, over all argument values; SMT equality of the order-sensitive trace of side effects with the reference'
EXPLAIN = 'Every statement with a side effect folds its number into a running hash, so two executions return the same value exactly when they performed the same statements in the same order (up to collisions of a 64-bit polynomial hash over concrete traces); all conditions depend on symbolic arguments, every feasible path of the compiled function and of the reference is explored and the hashes and final variable values are compared by the solver.'
class S:
    """Random statements: every loop carries fuel, every label is unique in its function."""
    def __init__(self, r, budget, depth): self.r, self.left, self.depth, self.k, self.v, self.labels, self.post = r, budget, depth, 0, 0, [], []
    def t(self): self.k += 1; return 'T(%d)' % self.k
    def var(self): return self.r.choice(['a', 'b', 'c', 'd', 'x'])
    def cond(self):
        r = self.r; k = r.random()
        if k < 0.25: return '%s %s %s' % (self.var(), r.choice(REL), r.choice([self.var(), str(r.choice([0, 1, -1, 5, 127, 128, 255, 1000]))]))
        if k < 0.40: return '(%s & %d) %s %d' % (self.var(), r.choice([1, 3, 7]), r.choice(['==', '!=', '<', '>']), r.randrange(4))
        if k < 0.50: return self.var()
        if k < 0.58: return '!%s' % self.var()
        if k < 0.66: return '%s && %s' % (self.cond(), self.cond())
        if k < 0.74: return '%s || %s' % (self.cond(), self.cond())
        if k < 0.80: return '(%s, %s)' % (self.t(), self.cond())
        if k < 0.84: return r.choice(['0', '1', '0 && %s' % self.t(), '1 || %s' % self.t(), '(0, 1)', '!0'])
        if k < 0.90: return '(%s ? %s : %s)' % (self.cond(), self.cond(), self.cond())
        if k < 0.94: return '!(%s)' % self.cond()
        if k < 0.97: return '(%s = %s & 3)' % ('x', self.var())
        return '(f < %s) ' % r.choice(['1.5f', '0.0f', '(float)x'])
    def effect(self):
        r = self.r; k = r.random()
        if k < 0.6: return self.t() + ';'
        if k < 0.7: return 'x %s %s;' % (r.choice(['+=', '-=', '^=', '=']), r.choice([self.var(), '1', '7']))
        if k < 0.8: return '%s ? %s : %s;' % (self.cond(), self.t(), self.t())
        if k < 0.87: return '%s && %s;' % (self.cond(), self.t())
        if k < 0.94: return '%s || %s;' % (self.cond(), self.t())
        return r.choice([';', '{}', '%s, %s;' % (self.t(), self.t()), '(void)(%s);' % self.cond()])
    def block(self, d, loop, sw, n=None):
        return '{ ' + ' '.join(self.stmt(d, loop, sw) for _ in range(n or self.r.choice([1, 2, 2, 3]))) + ' }'
    def body(self, d, loop, sw): return self.block(d, loop, sw) if self.r.random() < 0.7 else self.stmt(d, loop, sw)
    def stmt(self, d, loop, sw):
        r = self.r; k = r.random(); self.left -= 1
        if d <= 0 or self.left < 0 or k < 0.22:
            if loop and k < 0.04: return 'if (%s) break;' % self.cond()
            if loop == 2 and k < 0.08: return 'if (%s) continue;' % self.cond()
            return self.effect()
        if k < 0.42: return 'if (%s) %s%s' % (self.cond(), self.block(d - 1, loop, sw), ' else ' + self.body(d - 1, loop, sw) if r.random() < 0.6 else '')
        if k < 0.60:
            i = 'i%d' % self.v; self.v += 1; n = r.choice([1, 2, 3]); b = self.block(d - 1, 2, sw); m = r.randrange(7)
            if m == 0: return 'for (int %s = 0; %s < %d; %s++) %s' % (i, i, n, i, b)
            if m == 1: return '{ int %s = 0; while (%s++ < %d && (%s)) %s }' % (i, i, n, self.cond(), b)
            if m == 2: return '{ int %s = 0; do %s while (++%s < %d && (%s)); }' % (i, b, i, n, self.cond())
            if m == 3: return '{ int %s = %d; for (;;) { if (!%s--) break; %s } }' % (i, n, i, b)
            if m == 4: return '{ int %s = 0; for (; %s < %d; %s++, %s) %s }' % (i, i, n, i, self.t(), b)
            if m == 5: return '{ int %s = %d; while (1) { if (--%s < 0) break; %s } }' % (i, n, i, b)
            return '{ int %s = 0; do { if (%s) continue; %s } while (%s++ < %d); }' % (i, self.cond(), self.block(d - 1, 2, sw), i, n - 1)
        if k < 0.78:
            e, m = r.choice([('x & 3', 4), ('a & 7', 8), ('c', 256), ('a', 1 << 20), ('d', 1 << 20), ('(unsigned char)b', 256), ('b % 5', 5), ('(short)d', 40000), ('x', 9)])
            vals = set(); cs = []
            for _ in range(r.choice([1, 2, 3, 4, 6])):
                v = r.randrange(m) if m <= 256 else r.choice([0, 1, 2, -1, -2, 100, 1000, 127, 128, 255, 256, 32767, -32768, r.randrange(m)])
                if m > 256 and e == '(short)d' and abs(v) > 32767 and v != -32768: continue
                if v not in vals: vals.add(v); cs.append('case %d:' % v)
            if r.random() < 0.2 and m > 8: lo = 300 if m > 256 else None; 
            if r.random() < 0.7: cs.insert(r.randrange(len(cs) + 1), 'default:')
            out = []
            for c in cs:
                out.append(c)
                if r.random() < 0.8: out.append(' '.join(self.stmt(d - 1, 1 if loop != 2 else 2, 1) for _ in range(r.choice([1, 1, 2]))))
                if r.random() < 0.6: out.append('break;')
            return 'switch (%s) { %s; }' % (e, ' '.join(out))
        if k < 0.86:
            l = 'L%d' % self.v; self.v += 1
            if r.random() < 0.5: return '{ if (%s) goto %s; %s %s: %s }' % (self.cond(), l, self.body(d - 1, loop, sw), l, self.effect())
            return '{ static int dummy; int u%s = 0; %s: %s if (++u%s < 3 && (%s)) goto %s; }' % (l, l, self.body(d - 1, 0, sw), l, self.cond(), l)
        if k < 0.90: return 'if (%s) return h + x;' % self.cond()
        return self.effect() + ' ' + self.stmt(d - 1, loop, sw)
PRE = '#define T(k) (h = h * 1099511628211ull + (k))\n'
HEAD = 'unsigned long long $f(int a, unsigned b, unsigned char c, long long d, float f){ unsigned long long h = 1; int x = a & 7; '
def hand():
    F = []
    def add(sig, t): F.append((t, sig))
    add('84', 'unsigned long long $f(int n){ unsigned long long h = 1; int i = (n & 15) + 1, c = (i + 3) / 4; switch (i % 4) { case 0: do { T(1); case 3: T(2); case 2: T(3); case 1: T(4); } while (--c > 0); } return h; }')
    add('84', 'unsigned long long $f(int n){ unsigned long long h = 1; int i = 0; if (n & 1) goto in; for (i = 0; i < 3; i++) { T(1); in: T(2); } return h + i; }')
    add('84', 'unsigned long long $f(int n){ unsigned long long h = 1; switch (n) { T(9); int q; case 1: q = 3; T(q); default: T(1); break; case -2147483647 - 1: T(2); case 2147483647: T(3); } return h; }')
    add('84', 'unsigned long long $f(unsigned n){ unsigned long long h = 1; switch (n) { case 0: T(1); break; case 0xffffffff: T(2); break; case 0x80000000: T(3); case 0x7fffffff: T(4); } return h; }')
    add('88', 'unsigned long long $f(long long n){ unsigned long long h = 1; switch (n) { case 0x100000000: T(1); break; case -1: T(2); break; case 0: T(3); case 0x7fffffffffffffff: T(4); break; case 0xffffffff: T(5); break; default: T(6); case 5: T(7); } return h; }')
    add('88', 'unsigned long long $f(unsigned long long n){ unsigned long long h = 1; switch (n) { case 0x8000000000000000: T(1); break; case 0xffffffffffffffff: T(2); break; case 0x80000000: T(3); case 0xffffffff80000000: T(4); break; default: T(6); } return h; }')
    for t, c in (('char', '1'), ('signed char', '1'), ('unsigned char', '1'), ('short', '2'), ('unsigned short', '2'), ('_Bool', '1<2,')):
        add('8' + c, 'unsigned long long $f(%s n){ unsigned long long h = 1; switch (n) { case 0: T(1); break; case 1: T(2); case 127: T(3); break; case -1: T(4); break; case 255: T(5); case -128: T(6); break; case 128: T(8); break; case 65535: T(7); break; case 256: T(9); } return h; }' % t)
    add('844', 'unsigned long long $f(int a, int b){ unsigned long long h = 1; switch (a & 3) { case 0: switch (b & 3) { case 0: T(1); default: T(2); break; case 2: T(3); } T(4); case 1: T(5); break; case 2: for (;;) { switch (b & 1) { case 0: T(6); break; case 1: T(7); goto out; } break; } default: T(8); } T(9); out: return h; }')
    add('84', 'unsigned long long $f(int a){ unsigned long long h = 1; for (int i = 0; i < 5; i++) { switch ((a >> 2 * i) & 3) { case 0: continue; case 1: T(1); break; case 2: T(2); continue; default: goto done; } T(3); } done: T(4); return h; }')
    add('844', 'unsigned long long $f(int a, int b){ unsigned long long h = 1; if (a) if (b) T(1); else T(2); if (a) { if (b) T(3); } else T(4); if (a) ; else T(5); if (a) {} else if (b) T(6); else T(7); return h; }')
    add('844', 'unsigned long long $f(int a, int b){ unsigned long long h = 1; int r = a ? b ? 1 : 2 : b ? 3 : 4; T(r); a ? (void)T(5) : (void)T(6); (a ? T(1) : T(2)), T(3); r = (T(4), a) || (T(5), b) && (T(6), a != b); T(r); r = ((T(7), a) && (T(8), b)) + ((T(9), !a) || (T(10), b)); return T(r); }')
    add('8d', 'unsigned long long $f(double x){ unsigned long long h = 1; if (x) T(1); if (!x) T(2); while (x > 1.0) { T(3); break; } x ? T(4) : T(5); x && T(6); x || T(7); do T(8); while (0.0); for (; x != x; ) { T(9); break; } return h; }')
    add('8f', 'unsigned long long $f(float x){ unsigned long long h = 1; if (x) T(1); else T(10); if (!x || x < 2) T(2); int i = 0; while (x >= 1.0f && i++ < 2) { T(3); x -= 1; } return h; }')
    add('88', 'unsigned long long $f(char *p){ unsigned long long h = 1; if (p) T(1); if (!p) T(2); p ? T(3) : T(4); p && T(5); p || T(6); while (p) { T(7); p = 0; } int x = p == 0; T(x); return h; }')
    for t, c in (('char', '1'), ('short', '2'), ('long long', '8'), ('unsigned char', '1'), ('_Bool', '1<2,')):
        add('8' + c * 2, 'unsigned long long $f(%s p, %s q){ unsigned long long h = 1; if (p) T(1); else T(2); if (!q) T(3); if (p && q) T(4); if (p || q) T(5); if (!(p && !q)) T(6); int z = !p; T(z); z = p || q; T(z); z = p ? 5 : 6; T(z); int i = 0; while (p) { T(7); if (++i > 2) break; } do { T(8); } while (q && ++i < 4); for (; p; ) { T(9); break; } return h; }' % (t, t))
    add('844', 'static int $g; static int $h(int v){ $g = $g * 7 + v; return v & 1; } int $i(int a, int b){ return $h(a) && $h(b) || $h(a + b); } unsigned long long $f(int a, int b){ $g = 0; int r = $i(a & 3, b & 3); r += ($h(a) ? $h(b) : $h(1)) * 4; if ($h(a) , $h(b)) r += 8; return (unsigned long long)$g * 16 + r; }')
    add('84', 'static unsigned $fib(unsigned n){ return n < 2 ? n : $fib(n - 1) + $fib(n - 2); } unsigned long long $f(unsigned n){ return $fib(n & 7); }')
    add('844', 'static int $ev(unsigned n); static int $od(unsigned n){ if (n == 0) return 0; return $ev(n - 1); } static int $ev(unsigned n){ if (n == 0) return 1; return $od(n - 1); } unsigned long long $f(unsigned n, unsigned m){ return $ev(n & 7) * 2 + $od(m & 7); }')
    add('84', 'unsigned long long $f(int n){ unsigned long long h = 1; int i; for (i = 0; i < (n & 3); i++); T(i); while (i --> 0); T(i); do ; while (i++ < 1); T(i); for (int i = 5, j = 0; j < 2; j++, i--) { int i = 9; T(i); T(j); } return h; }')
    add('84', 'unsigned long long $f(int n){ unsigned long long h = 1; goto b; a: T(1); if (n & 1) goto c; goto d; b: T(2); goto a; c: T(3); goto e; d: T(4); e: ; return h; }')
    add('84', 'unsigned long long $f(int n){ unsigned long long h = 1; { int x = 1; T(x); { int x = 2; T(x); } T(x); } if (n) { lab: T(5); n = 0; } if (n & 1) goto lab; for (;;) { for (;;) { if (n++ < 0) break; T(6); goto out; } break; } out: T(7); return h; }')
    add('84', 'unsigned long long $f(int n){ static int s; unsigned long long h = 1; s = 3; while (s --) { if (n & 1 << s) continue; T(s); } return h; }')
    add('v4P8,', 'void $f(int n, int *o){ if (n == 1) { *o = 1; return; } if (n == 2) return; *o = n; }')
    add('44', 'int $f(int n){ while (1) { if (n > 10) return n; if (n < 0) return -1; n += 5; } }')
    add('44', 'int $f(int n){ switch (n) { } switch (n) default: n++; switch (n) case 5: n = 7; switch (n) { case 3: ; } if (n) switch (n) { case 7: return 1; case 4: return 2; } else return 3; return n; }')
    add('41', 'int $f(unsigned char n){ int r = 0; switch (n) { ' + ' '.join('case %d: r += %d;%s' % (i, i * i + 1, ' break;' if i % 3 else '') for i in range(0, 256, 5)) + ' default: r -= 3; } return r; }')
    add('44', 'int $f(int n){ switch (n) { ' + ' '.join('case %d: return %d;' % (i * 7 - 100, i) for i in range(60)) + ' } return -5; }')
    return F
def padded(r, quick):
    """Loop and branch bodies whose size is swept over the reach of short displacements."""
    out = []; big = [0, 1, 2, 5, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 24, 28, 33, 40, 64, 100]; tiny = range(6)
    def pad(n, m): return ' '.join(['q ^= %d;' % (i % 100 + 1) for i in range(n)] + ['u++;'] * m)
    for n in (r.sample(big, 8) if quick else big):
        for m in (r.sample(list(tiny), 2) if quick else tiny):
            p = pad(n, m)
            out.append(('844', 'unsigned long long $f(int a, int b){ unsigned long long h = 1; int q = 0; char u = 0; if (a < b) { %s T(1); } else T(2); for (int i = 0; i < (b & 1); i++) { T(3); %s } int i = 0; do { %s T(4); } while (i++ < 1 && a); switch (b & 3) { case 0: T(5); %s case 1: T(6); break; default: %s T(7); } a && (q += 1) || (u += 3); goto e; %s T(8); e: return h + q * 5 + u; }' % (p, p, p, p, p, p)))
    for n in (600, 9000) if quick else (600, 3000, 9000, 20000):
        p = pad(n, 3); out.append(('844', 'unsigned long long $f(int a, int b){ unsigned long long h = 1; int q = 0; char u = 0; if (a < b) { %s T(1); } else { T(2); } int i = 0; again: T(3); if (a & 1) { %s } if (i++ < 1) goto again; return h + q + u; }' % (p, p)))
    return out
def check(c):
    r = c.rng; fns = []; n = 0
    def add(sig, t, pre=''):
        nonlocal n
        t = t.replace('$f', '$z%d' % n); t = re.sub(r'\$(?!z\d)(\w)', lambda m: '$q%d%s' % (n, m.group(1)), t); fns.append((t, '$z%d' % n, sig)); n += 1
    import re
    for t, s in hand(): add(s, t)
    cases = cases_of('hand', fns, 4, PRE); fns.clear()
    for s, t in padded(r, c.quick): add(s, t)
    cases += cases_of('pad', fns, 1, PRE); fns.clear()
    N = 190 if c.quick else 2500
    for i in range(N):
        d = r.choice([2, 3, 3, 4]); g = S(r, r.choice([8, 12, 16, 22]), d)
        b = ' '.join(g.stmt(d, 0, 0) for _ in range(r.choice([1, 2, 3]))); add('8418f'[0] + '4418f', HEAD + b + ' return h * 31 + x; }')
    cases += cases_of('gen', fns, 3, PRE)
    c.bounds += ['arguments: all values; loops of at most 3 iterations (hand-written ones up to 16); generated functions of at most about 22 statements, nesting depth 4; bodies of up to %d statements for the jump distances' % (9000 if c.quick else 20000)]
    c.diff('flow', cases, deadline=75 if c.quick else 800, task_seconds=20 if c.quick else 200)
