from gen import *
from vlib import Case
LEVEL = 'translation_validation'
TECHNIQUE = 'symbolic execution of compiled initialisations with symbolic automatic initialisers; SMT equality of every member with a reference compiled for the same ABI'
EXPLAIN = 'Generated objects (static, file scope, automatic, compound literals) of nested array, structure, union and bit-field types are initialised by flat, nested, designated, partial, overriding, string and address initialisers; a function reads every member and the result is compared, for all values of the expressions used in automatic initialisers, with the same text compiled by clang for the MSVC ABI.'
PRE = '''#ifndef DEFS12
#define DEFS12
typedef unsigned long long u64; typedef long long s64; typedef unsigned short wch;
typedef struct { int x, y; } P12;
#endif
#define H(v) (h = (h << 7 | h >> 57) ^ (u64)(v))
'''
SC = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 's64', 'u64', 'float', 'double', 'ptr', 'str', '_Bool', 'fun']
WID = {'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned': 32, 'long': 32, 's64': 64, 'u64': 64, '_Bool': 1}
class T: # k: scalar kind, 'arr', 'struct', 'union', 'bits', 'chars'
    def __init__(self, k, **kw): self.k = k; self.__dict__.update(kw)
class G:
    def __init__(self, r): self.r, self.m, self.s = r, 0, 0
    def typ(self, d, top=False):
        r = self.r; q = r.random()
        if d > 0 and (top or q < 0.5):
            k = r.random()
            if k < 0.30: return T('arr', e=self.typ(d - 1), n=r.choice([1, 2, 3, 4]))
            if k < 0.42: return T('chars', e=r.choice(['char', 'char', 'unsigned char', 'wch']), n=r.choice([1, 2, 3, 5, 8]))
            kind = 'union' if k > 0.88 else 'struct'; ms = []
            for _ in range(r.choice([1, 2, 2, 3, 4])):
                t = self.typ(d - 1); self.m += 1; nm = 'm%d' % self.m
                if kind == 'struct' and r.random() < 0.15:
                    b = r.choice(list(WID)); t = T('bits', t=b, w=r.randrange(1, WID[b] + 1))
                    if r.random() < 0.15: ms.append(('', T('pad', t='unsigned', w=r.choice([0, 3, 9]))))
                elif t.k in ('struct', 'union') and not t.tag and r.random() < 0.3: nm = ''
                ms.append((nm, t))
            if all(not n for n, t in ms): return self.typ(0)
            if kind == 'union': ms = [(n, t) for n, t in ms if n]; 
            self.s += 1
            return T(kind, ms=ms, tag='$s%d' % self.s if r.random() < 0.5 else '', active=r.randrange(len(ms)) if kind == 'union' else 0, done=False)
        return T(r.choice(SC))
    def decl(self, t, nm):
        if t.k == 'arr': return self.decl(t.e, '%s[%d]' % (nm, t.n))
        if t.k == 'chars': return '%s %s[%d]' % (t.e, nm, t.n)
        if t.k in ('bits', 'pad'): return '%s %s : %d' % (t.t, nm, t.w)
        if t.k in ('struct', 'union'):
            if t.tag and t.done: return '%s %s %s' % (t.k, t.tag, nm)
            t.done = True; return '%s %s { %s } %s' % (t.k, t.tag, ' '.join(self.decl(y, n) + ';' for n, y in t.ms), nm)
        if t.k == 'ptr': return 'char *' + nm
        if t.k == 'str': return 'const char *' + nm
        if t.k == 'fun': return 'int (*%s)(int)' % nm
        return '%s %s' % (t.k, nm)
    def leaves(self, t, p):
        if t.k == 'arr': return [x for i in range(t.n) for x in self.leaves(t.e, '%s[%d]' % (p, i))]
        if t.k == 'chars': return ['H(%s[%d]);' % (p, i) for i in range(t.n)]
        if t.k == 'struct': return [x for n, y in t.ms if y.k != 'pad' for x in self.leaves(y, p + '.' + n if n else p)]
        if t.k == 'union': n, y = t.ms[t.active]; return self.leaves(y, p + '.' + n)
        if t.k == 'float': return ['H(*(unsigned *)&%s);' % p]
        if t.k == 'double': return ['H(*(u64 *)&%s);' % p]
        if t.k == 'ptr': return ['H(%s ? (%s - $g) + 5 : 1);' % (p, p)]
        if t.k == 'str': return ['H(%s ? %s[0] * 3 + %s[1] * 5 + %s[2] : 1);' % (p, p, p, p)]
        if t.k == 'fun': return ['H(%s == $fa ? 1 : %s == $fb ? 2 : %s ? 3 : 4);' % (p, p, p)]
        return ['H((s64)%s);' % p]
    def scalar(self, t, auto):
        r = self.r; k = t.t if t.k == 'bits' else t.k
        if k == 'ptr': return r.choice(['$g', '&$g[%d]' % r.randrange(30), '$g + %d' % r.randrange(30), '0', '(char *)&$gi[%d]' % r.randrange(4), '(char *)&$gp.y', '(void *)($gi + 2)', '(char *)$gi + 3', '&*$g', '&($g + 9)[2]', '(char *)&((P12 *)$gi)->y', '(char *)&($gi + 3)[-1]', '(char *)&$ga[1].y', '(char *)$ga[1].z']) if not auto or r.random() < 0.6 else r.choice(['$g + (k & 15)', '(v ? $g : 0)', '&$g[k & 7]'])
        if k == 'str': return r.choice(['"ab"', '"xyz"', '"x\\0z"', '("par")', '"con" "cat"', '0', '"hello" + 2', '&"hello"[1]'])
        if k == 'fun': return r.choice(['$fa', '&$fb', '$fb', '0', '(int (*)(int))$fa'])
        if k in ('float', 'double'):
            if auto and r.random() < 0.7: return r.choice(['f', 'd', '(float)d', 'f + 1', '(float)k', 'k', '-d', '(unsigned char)v'])
            return r.choice(['1.5', '-2.25f', '0', '3', '1e10', '-0.0', '1/3.0', '(float)0.1', "'a'", '-7', '0x10u'])
        if auto and r.random() < 0.75: return r.choice(['v', 'k', 'v >> 8', 'k + 1', '(k, v)', '-k', 'v ? k : 3', '(short)v', 'v == 3', '(unsigned char)k', '$ff(k)', '(u64)k * v', '!v']) if k != '_Bool' else r.choice(['v', 'k', 'v > 5', '!k'])
        if k == '_Bool': return r.choice(['1', '0', '7', '256', '!0', '0.5'] + ([] if t.k == 'bits' else ['-1']))
        big = ['1', '-1', '0', "'x'", '100', '-100', '255', '65535', '-32768', '0x12345678', '-2147483647 - 1', '0xffffffff', '0x123456789abcdef0', '0xffffffffffffffffull', 'sizeof(int)', '1 ? 2 : 3', '(char)300', '~5', '3 << 4', '$E', '-$E - 1', '(int)2.9', '(u64)-1 >> 3', '1 - 3u', '-3 / 2', '!7', '5 > 3', '0x80u', '-128', '32768', '2147483648', '3.99', '$E == 7 ? -2 : 9']
        if not auto and k in ('s64', 'u64') and t.k != 'bits' and r.random() < 0.15: return '1234567890123'
        return r.choice(big) if k != '_Bool' else '1'
    def string(self, t):
        r = self.r; n = r.randrange(t.n + 1); cs = ''.join(r.choice(['a', 'b', 'Z', '0', ' ', '\\n', '\\\\', '\\x7f', '\\101', '\\0"%s"' % '', '\\"', '\\xff' if t.e != 'wch' else '\\x2603']) + '""' for _ in range(n)); cs = cs.replace('""', '')
        # hexadecimal escapes must not swallow the next character
        out = []; i = 0
        for _ in range(n): out.append(r.choice(['a', 'b', 'Z', '0', ' ', '\\n', '\\\\', '\\x7f', '\\101', '\\000', '\\"', '\\xff' if t.e != 'wch' else '\\x2603', '?', '\\t']))
        s = ''.join('"%s"' % c if '\\x' in c else c for c in [])
        body = ''; parts = []
        for c in out:
            body += c
            if '\\x' in c: parts.append(body); body = ''
        parts.append(body)
        pfx = r.choice(['L', 'u']) if t.e == 'wch' else r.choice(['', '', '', 'u8'])
        res = ' '.join((pfx if i == 0 or r.random() < 0.5 or pfx != '' else '') + '"%s"' % p for i, p in enumerate(parts))
        return res
    def flat(self, t, auto):
        """All leaves in order, no braces."""
        if t.k == 'arr': return [x for _ in range(t.n) for x in self.flat(t.e, auto)]
        if t.k == 'chars': return [self.string(t)] if self.r.random() < 0.6 else [self.scalar(T('char' if t.e != 'wch' else 'short'), auto) for _ in range(t.n)]
        if t.k == 'struct': return [x for n, y in t.ms if y.k != 'pad' for x in self.flat(y, auto)]
        if t.k == 'union': return self.flat(t.ms[0][1], auto)
        return [self.scalar(t, auto)]
    def flatok(self, t):
        if t.k == 'arr': return self.flatok(t.e)
        if t.k == 'struct': return all(self.flatok(y) for n, y in t.ms if y.k != 'pad')
        if t.k == 'union': return t.active == 0 and self.flatok(t.ms[0][1])
        return True
    def path(self, t, auto, d):
        """A designator below t and the initialiser for what it designates."""
        r = self.r
        if t.k in ('arr',) and (d == 0 or r.random() < 0.4): i = r.randrange(t.n); a, b = self.path(t.e, auto, d + 1); return '[%s]%s' % (r.choice([str(i), '%d + 0' % i, '%d - 1' % (i + 1)]), a), b
        if t.k == 'chars' and (d == 0 or r.random() < 0.2): return '[%d]' % r.randrange(t.n), self.scalar(T('char'), auto)
        if t.k in ('struct', 'union') and (d == 0 or r.random() < 0.4):
            c = [(n, y) for n, y in t.ms if y.k != 'pad' and n] if t.k == 'struct' else [t.ms[t.active]]
            if c: n, y = r.choice(c); a, b = self.path(y, auto, d + 1); return '.' + n + a, b
        return '', self.init(t, auto, 1)
    def init(self, t, auto, d=0):
        r = self.r
        if t.k not in ('arr', 'chars', 'struct', 'union'):
            e = self.scalar(t, auto); return '{%s}' % e if r.random() < 0.04 else e if not e.startswith('(k,') else e
        if t.k == 'chars' and r.random() < 0.6: s = self.string(t); return '{%s}' % s if r.random() < 0.15 else s
        if r.random() < 0.05: return '{0}' if not (t.k == 'union' and t.active) else '{.%s = 0}' % t.ms[t.active][0] if t.ms[t.active][1].k not in ('arr', 'struct', 'union', 'chars') else '{.%s = {0}}' % t.ms[t.active][0]
        if d and r.random() < 0.05 and t.k != 'union': return '{}'
        if r.random() < 0.15 and self.flatok(t):
            f = self.flat(t, auto); n = r.choice([len(f), r.randrange(1, len(f) + 1)]); return '{ %s%s }' % (', '.join(f[:n]), r.choice(['', ',']))
        el = [(None, t.e)] * t.n if t.k == 'arr' else [(None, T('char' if t.e != 'wch' else 'short'))] * t.n if t.k == 'chars' else [(n, y) for n, y in t.ms if y.k != 'pad'] if t.k == 'struct' else t.ms
        out = []; i = 0; des = r.random() < 0.5; stop = len(el) if r.random() < 0.6 else r.randrange(1, len(el) + 1); cnt = 0
        if t.k == 'union':
            n, y = el[t.active]
            if t.active or r.random() < 0.4: return '{ .%s = %s }' % (n, self.init(y, auto, d + 1))
            return '{ %s }' % self.init(y, auto, d + 1)
        while i < len(el) and cnt < stop:
            cnt += 1
            if des and r.random() < 0.4:
                j = r.randrange(len(el)) if r.random() < 0.4 else r.randrange(i, len(el))
                n, y = el[j]
                if t.k == 'struct' and not n: continue
                p = '.' + n if t.k == 'struct' else '[%d]' % j
                if r.random() < 0.35 and y.k in ('arr', 'struct', 'chars', 'union'): a, b = self.path(y, auto, 0); out.append('%s%s = %s' % (p, a, b)); des = 2; break # what follows would continue inside
                out.append('%s = %s' % (p, self.init(y, auto, d + 1))); i = j + 1; continue
            n, y = el[i]
            if y.k in ('arr', 'struct', 'union') and r.random() < 0.25 and self.flatok(y): out += self.flat(y, auto)
            else: out.append(self.init(y, auto, d + 1))
            i += 1
        return '{ %s%s }' % (', '.join(out), r.choice(['', '', ','])) if out else '{0}' if t.k != 'union' else '{ 0 }'
def check(c):
    r = c.rng; cases = []; N = 300 if c.quick else 5000
    for i in range(N):
        g = G(r); t = g.typ(r.choice([1, 2, 2, 3]), True)
        if t.k not in ('arr', 'chars', 'struct', 'union'): t = T('arr', e=t, n=3)
        L = g.leaves(t, '@')
        if len(L) > 60 or not L: continue
        src = PRE + 'char $g[32]; int $gi[8]; P12 $gp; enum { $E = 7 }; struct { int x; short y; char z[4]; } $ga[3];\nint $fa(int a){ return a; } int $fb(int a){ return a + 1; } int $ff(int a){ return a ^ 5; }\n'
        src = src.replace("$gi[%d]", "$gi[%d]")
        # pointer leaves are measured from one object: the others need a base of their own
        src += 'static u64 $pp(const char *p){ if (!p) return 1; if (p >= $g && p <= $g + 32) return p - $g + 5; if (p >= (char *)$gi && p <= (char *)($gi + 8)) return p - (char *)$gi + 100; if (p >= (char *)&$gp && p <= (char *)(&$gp + 1)) return p - (char *)&$gp + 200; if (p >= (char *)$ga && p <= (char *)($ga + 3)) return p - (char *)$ga + 300; return 9999; }\n'
        fix = lambda l: [('H($pp(%s));' % x[2:x.index(' ?')]) if ' - $g)' in x else x for x in l]
        src += 'typedef %s;\n' % g.decl(t, '$t'); fns = []; k = 0
        def rd(p): return ' '.join(fix([x.replace('@', p) for x in L]))
        q = r.choice(['', 'static ', 'const ', 'static const ', 'extern '])
        for j in range(3):
            src += '%s$t $o%d = %s;\n' % (q if j == 0 else '', j, g.init(t, False)); src += 'u64 $f%d(void){ u64 h = 1; %s return h; }\n' % (k, rd('$o%d' % j)); fns.append(('$f%d' % k, '8')); k += 1
        src += '$t $z; u64 $f%d(void){ u64 h = 1; %s return h; }\n' % (k, rd('$z')); fns.append(('$f%d' % k, '8')); k += 1
        src += 'u64 $f%d(void){ u64 h = 1; static $t x = %s; %s static $t y; %s return h; }\n' % (k, g.init(t, False), rd('x'), rd('y')); fns.append(('$f%d' % k, '8')); k += 1
        A = 'u64 v, int k, double d, float f'; S = '84df'
        for j in range(3 if c.quick else 5):
            src += 'u64 $f%d(%s){ u64 h = 1; $t x = %s; %s return h ^ k; }\n' % (k, A, g.init(t, True), rd('x')); fns.append(('$f%d' % k, '8' + S)); k += 1
        src += 'u64 $f%d(%s){ u64 h = 1; %s x = %s, y = x; struct { char a; $t b; } w = {1, x}, u = {.b = x}, *p = &u; H(w.a); %s %s %s return h ^ k; }\n' % (k, A, '$t' if t.k in ('struct', 'union') else 'struct { $t q; }', g.init(t, True) if t.k in ('struct', 'union') else '{%s}' % g.init(t, True), rd('y' if t.k in ('struct', 'union') else 'y.q'), rd('w.b') if t.k in ('struct', 'union') else '', rd('p->b') if t.k in ('struct', 'union') else '') if t.k in ('struct', 'union') else 'u64 $f%d(%s){ u64 h = 1; struct { char a; $t q; short b; } x = {3, %s, k}, y = x; H(y.a); H(y.b); %s return h ^ k; }\n' % (k, A, g.init(t, True), rd('y.q')); fns.append(('$f%d' % k, '8' + S)); k += 1
        if t.k in ('struct', 'union'):
            src += 'u64 $f%d(%s){ u64 h = 1; $t x; x = ($t)%s; %s $t *p = &($t)%s; %s $t y = ($t)%s; %s return h ^ k; }\n' % (k, A, g.init(t, True), rd('x'), g.init(t, True), rd('(*p)'), g.init(t, True), rd('y')); fns.append(('$f%d' % k, '8' + S)); k += 1
            src += 'static $t $mk(%s){ return ($t)%s; } u64 $f%d(%s){ u64 h = 1; $t x = $mk(v, k, d, f); %s return h ^ k; }\n' % (A, g.init(t, True), k, A, rd('x')); fns.append(('$f%d' % k, '8' + S)); k += 1
        # arrays of unknown size
        e = r.choice(['int', 'short', 'u64', 'char']); n = r.randrange(1, 6); idx = r.randrange(9)
        ini = ', '.join(r.choice(['%s', '[%d] = %%s' % r.randrange(9)]) % r.choice(['v', 'k', '3', '-1']) for _ in range(n))
        src += 'u64 $f%d(%s){ u64 h = 1; %s a[] = { %s, [%d] = k }; for (unsigned i = 0; i < sizeof a / sizeof *a; i++) H(a[i]); return h + sizeof a; }\n' % (k, A, e, ini, idx); fns.append(('$f%d' % k, '8' + S)); k += 1
        cases.append(Case('i%d' % i, src, fns))
    fixed = PRE + r'''
char $s0[] = "abc", $s1[3] = "abc", $s2[5] = "ab", $s3[] = {"q" "rs"}; wch $w0[] = L"h\x4e2d", $w1[4] = u"xy"; unsigned char $s4[] = u8"\xe9z";
u64 $f0(void){ u64 h = sizeof $s0 + 10 * sizeof $s3 + 100 * sizeof $w0 + 1000 * sizeof $s4; for (int i = 0; i < 3; i++) { H($s0[i]); H($s1[i]); H($s2[i + 2]); H($s3[i + 1]); H($w0[i]); H($w1[i + 1]); H($s4[i]); } return h; }
int $a2[][3] = {1, 2, 3, 4, 5, 0, {6, 7}, [4] = {[1] = 8}, 9}; u64 $f1(void){ u64 h = sizeof $a2; for (int i = 0; i < sizeof $a2 / 4; i++) H($a2[0][i]); return h; }
struct $n { struct $n *next; int v; }; struct $n $n2, $n1 = {&$n2, 1}, $n2 = {&$n1, 2}; u64 $f2(void){ return ($n1.next == &$n2) + 2 * ($n2.next == &$n1) + $n1.next->v * 10 + $n2.next->v * 100; }
int $t; int $t = 5; extern int $t; static int $st; static int $st = 6; u64 $f3(void){ return $t * 10 + $st; }
int *$p = (int[]){4, 5, 6}; struct { P12 *q; int n; } $cl = {&(P12){7, 8}, 9}; u64 $f4(void){ return $p[2] + 10 * $cl.q->y + 1000 * $cl.n; }
char *$names[] = {"zero", [2] = "two", "three", [1] = "one"}; u64 $f5(int i){ char *s = $names[i & 3]; u64 h = sizeof $names; for (int j = 0; s[j]; j++) H(s[j]); return h; }
u64 $f6(u64 v, int k){ u64 h = 1; int n = 0; struct { int a, b, c; } x = { n++, n++, n++ }; H(n); P12 p[2] = {{k}, [1].y = k + 1}; H(p[0].x); H(p[0].y); H(p[1].x); H(p[1].y); int z[5] = {[3] = k, v, [0] = 3}; for (int i = 0; i < 5; i++) H(z[i]); return h; }
u64 $f7(u64 v, int k){ u64 h = 1; char s[8] = "xy"; H(s[k & 7]); char t[] = "longer string literal than a register"; H(t[k & 31]); H(sizeof t); wch w[3] = L"ab"; H(w[v % 3]); char u[2][4] = {"ab", "cdef"}; H(u[k & 1][v & 3]); return h; }
u64 $f8(u64 v, int k){ u64 h = 1; for (int i = 0; i < 3; i++) { P12 p = {i}; H(p.x); H(p.y); p.y = k; int a[3] = {k}; H(a[1] + a[2]); a[1] = a[2] = k; } return h; }
static const struct { unsigned a : 3, b : 7; int c : 6; } $bf[] = {{9, 200, 33}, {.c = -1}, {.b = 127, 31}}; u64 $f9(int k){ u64 h = 1; for (int i = 0; i < 3; i++) { H($bf[i].a); H($bf[i].b); H($bf[i].c); } return h; }
u64 $f10(u64 v, int k){ P12 *p = k ? &(P12){k, 2} : &(P12){3, (int)v}; return (u64)p->x << 32 ^ p->y; }
u64 $f11(u64 v, int k){ return ((int[]){k, 3, v})[v & 1] + ((P12){.y = k}).y + (*(P12 *)&(u64){v}).x; }
double $d0 = 1, $d1[] = {1.5f, -3, 'c'}; float $d2 = 1e300 > 1 ? 2.5 : 0; u64 $f12(void){ return (u64)($d0 * 10 + $d1[0] * 100 + $d1[1] + $d1[2] + $d2 * 1000); }
u64 $ad0 = (u64)&$t, $ad1 = (u64)&$a2[1][2] + 3; u64 $f13(void){ return ($ad0 == (u64)&$t) + 2 * ($ad1 - (u64)$a2); }
struct $o { char k; union { int i; double d; char c[8]; } u; struct { short s[2]; } q; }; struct $o $os[] = {{'i', {5}, {1, 2}}, {'d', {.d = 2.5}, .q.s[1] = 4}, {'c', {.c = "hey"}}, {'x', .u.c[2] = 'z', .u.c[3] = 'w'}};
u64 $f14(void){ return $os[0].u.i + 10 * $os[0].q.s[1] + (u64)($os[1].u.d * 100) + $os[1].q.s[1] * 1000 + $os[2].u.c[1] * 100000 + $os[3].u.c[2] * 10000000ull + $os[3].u.c[3] * 1000000000ull + sizeof $os; }
int (*$ft[])(int); int $ga1(int a){ return a + 1; } int $ga2(int a){ return a * 3; } int (*$ft[])(int) = {$ga1, [2] = &$ga2, 0}; u64 $f15(int k){ return $ft[0](k) + $ft[2](k) + !$ft[1] + sizeof $ft; }
struct $fl { int n; short a[]; }; struct $fl $fl = {3, {7, 8, 9}}; u64 $f16(void){ return $fl.n + $fl.a[2] * 10 + sizeof $fl * 1000; }
'''
    cases.append(Case('fixed', fixed, [('$f0', '8'), ('$f1', '8'), ('$f2', '8'), ('$f3', '8'), ('$f4', '8'), ('$f5', '84'), ('$f6', '884'), ('$f7', '884'), ('$f8', '884'), ('$f9', '84'), ('$f10', '884'), ('$f11', '884'), ('$f12', '8'), ('$f13', '8'), ('$f14', '8'), ('$f15', '84'), ('$f16', '8')]))
    c.bounds += ['generated types of nesting depth 3 with at most 60 scalar members; values of expressions in automatic initialisers are unrestricted']
    c.diff('init', c.valid(cases), deadline=150 if c.quick else 800)
