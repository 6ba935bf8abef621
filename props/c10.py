from gen import *
from vlib import Case
import re
LEVEL = 'translation_validation'
TECHNIQUE = 'symbolic execution of compiled callers and callees under the Windows x64 convention with every argument value symbolic; SMT equality with a reference compiled by clang for the same convention'
EXPLAIN = 'Compiled callees are entered by the harness with symbolic argument registers and stack slots (upper bits of narrow arguments are unconstrained, non-volatile registers and the caller frame hold known values that are compared afterwards); compiled callers call functions of the reference module, which receive what the convention says from the registers and stack the compiled code set up, and which return with every volatile register, the home area and the undefined bits of the result holding garbage. Stack alignment is checked at each such call.'
PRE = '''#include <stdarg.h>
typedef unsigned long long u64;
#define H(v) (h = (h << 7 | h >> 57) ^ (u64)(v))
'''
# structures without padding: name, definition, size, expressions over a value
ST = [('s1', 'struct s1 { unsigned char a; };', 1, ['%s.a']), ('s2', 'struct s2 { unsigned char a, b; };', 2, ['%s.a', '%s.b']), ('s2b', 'struct s2b { short a; };', 2, ['%s.a']), ('s3', 'struct s3 { unsigned char a[3]; };', 3, ['%s.a[0]', '%s.a[1]', '%s.a[2]']),
  ('s4', 'struct s4 { short a; unsigned char b, c; };', 4, ['%s.a', '%s.b', '%s.c']), ('s4f', 'struct s4f { union { float f; int i; }; };', 4, ['%s.i']), ('s5', 'struct s5 { char a[5]; };', 5, ['%s.a[0]', '%s.a[4]', '%s.a[2]']), ('s6', 'struct s6 { short a[3]; };', 6, ['%s.a[0]', '%s.a[1]', '%s.a[2]']), ('s7', 'struct s7 { unsigned char a[7]; };', 7, ['%s.a[6]', '%s.a[3]', '%s.a[0]']),
  ('s8', 'struct s8 { int a; unsigned b; };', 8, ['%s.a', '%s.b']), ('s8l', 'struct s8l { long long a; };', 8, ['%s.a']), ('s8d', 'struct s8d { union { double d; long long a; }; };', 8, ['%s.a']), ('s8c', 'struct s8c { char a[8]; };', 8, ['%s.a[0]', '%s.a[7]']), ('s8p', 'struct s8p { struct s4 x; struct s2 y[2]; };', 8, ['%s.x.b', '%s.y[1].a', '%s.x.a']),
  ('s9', 'struct s9 { char a[9]; };', 9, ['%s.a[8]', '%s.a[0]']), ('s12', 'struct s12 { int a[3]; };', 12, ['%s.a[0]', '%s.a[1]', '%s.a[2]']), ('s16', 'struct s16 { long long a, b; };', 16, ['%s.a', '%s.b']), ('s16m', 'struct s16m { struct s8 a; long long b; };', 16, ['%s.a.b', '%s.a.a', '%s.b']), ('s24', 'struct s24 { long long a[3]; };', 24, ['%s.a[0]', '%s.a[1]', '%s.a[2]']), ('s40', 'struct s40 { int a[10]; };', 40, ['%s.a[9]', '%s.a[0]', '%s.a[5]']), ('u8', 'union u8 { long long a; int b[2]; };', 8, ['%s.a', '%s.b[1]']), ('u12', 'union u12 { char a[12]; int b[3]; };', 12, ['%s.b[2]', '%s.a[0]'])]
SDEF = {n: d for n, d, _, _ in ST}; SSZ = {n: z for n, _, z, _ in ST}; SEX = {n: e for n, _, _, e in ST}
SC = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long long', 'unsigned long long', 'float', 'double', '_Bool']
DEFS = '\n'.join(d for _, d, _, _ in ST) + '\n'
def cty(t): return t if t in SC else 'char *' if t == 'ptr' else ('union ' if t[0] == 'u' else 'struct ') + t
def sig(t): return CODE[t] if t in SC else '8' if t == 'ptr' else 'S%d,' % SSZ[t]
def hash_of(e, t, r):
    if t == 'float': return 'H(*(unsigned *)&%s);' % e
    if t == 'double': return 'H(*(u64 *)&%s);' % e
    if t in SC or t == 'ptr': return 'H(%s);' % e
    return ' '.join('H(%s);' % (x % e) for x in SEX[t])
class A:
    def __init__(self, r): self.r = r
    def ty(self, kinds='ifsp'):
        r = self.r; k = r.choice(kinds)
        return r.choice(SC[:9] + ['_Bool']) if k == 'i' else r.choice(['float', 'double']) if k == 'f' else r.choice(ST)[0] if k == 's' else 'ptr'
    def proto(self, n=None, kinds=None):
        r = self.r; kinds = kinds or r.choice(['i', 'f', 's', 'if', 'ifs', 'ifsp', 'is']); n = n if n is not None else r.choice([0, 1, 2, 3, 4, 4, 5, 5, 6, 7, 8, 9, 11, 14])
        return [self.ty(kinds) for _ in range(n)]
def check(c):
    r = c.rng; a = A(r); cases = []; n = 0
    def name(): nonlocal n; n += 1; return 'q%d' % n
    def add(src, fns, ref=None): cases.append(Case('p%d' % len(cases), PRE + DEFS + src, fns, ref='#ifndef DEFS\n#define DEFS\n' + PRE + DEFS + '#endif\n' + (ref or src)))
    def params(ts): return ', '.join('%s p%d' % (cty(t), i) for i, t in enumerate(ts)) or 'void'
    # callees
    def callee(ts, rt, pre=''):
        f = '$' + name(); body = ''
        order = list(range(len(ts))); r.shuffle(order)
        if r.random() < 0.4:
            for i in order[:2]:
                if ts[i] in SC[:9]: body += 'p%d %s; ' % (i, r.choice(['+= 3', '^= 5', '++', '= -p%d' % i]))
                elif ts[i] in SEX: body += '{ %s t = p%d; %s %s } ' % (cty(ts[i]), i, hash_of('t', ts[i], r), 't.a' + ('[1] = 9;' if '[' in SEX[ts[i]][0].split('.')[1] else ' = 5;') if ts[i] in ('s1', 's2', 's8', 's12', 's24', 's3') else '')
        if r.random() < 0.3: body += 'int loc[%d]; loc[%d] = (int)h; H(loc[%d]); ' % ((k := r.choice([3, 40, 1000, 3000])), k - 1, k - 1)
        for i in order: body += hash_of('p%d' % i, ts[i], r) + ' '
        same = [i for i in range(len(ts)) if ts[i] == rt]
        if rt == 'void': return None
        if same and r.random() < 0.7: ret = 'return p%d;' % r.choice(same); 
        elif rt in SEX: ret = '%s res; for (int i = 0; i < (int)sizeof(res); i++) ((unsigned char *)&res)[i] = (unsigned char)(h >> (i & 7) * 8); return res;' % cty(rt)
        elif rt == 'ptr': ret = 'return (char *)h;'
        elif rt == 'float': ret = 'unsigned w = (unsigned)h; return *(float *)&w;'
        elif rt == 'double': ret = 'return *(double *)&h;'
        else: ret = 'return (%s)h;' % rt
        return ('%s %s(%s){ u64 h = 1; %s%s }\n' % (cty(rt), f, params(ts), body, ret), f, sig(rt) + ''.join(sig(t) for t in ts))
    for _ in range(300 if c.quick else 2500):
        src = ''; fns = []
        for _ in range(3):
            rt = r.choice(['unsigned long long'] * 6 + SC + [s[0] for s in ST]); t, f, s = callee(a.proto(), rt); src += t; fns.append((f, s))
        add(src, fns)
    # every (slot, type) pair is received from the right place
    for t in SC + ['ptr'] + [s[0] for s in ST]:
        src = ''; fns = []
        for slot in range(7): 
            ts = [r.choice(['int', 'double']) for _ in range(slot)] + [t]; tt, f, s = callee(ts, t); src += tt; fns.append((f, s))
        add(src, fns)
    # callers: the external functions live in the reference module
    def caller(ts, rt, dots=0, via=None):
        e = name(); f = '$' + name(); nf = len(ts) - dots; rtn = cty(rt)
        ps = ', '.join('%s p%d' % (cty(t), i) for i, t in enumerate(ts[:nf]))
        if dots: ps = (ps + ', ' if ps else '') + '...'
        elif not ps: ps = 'void'
        h = ''.join(hash_of('p%d' % i, t, r) + ' ' for i, t in enumerate(ts[:nf]))
        for i, t in enumerate(ts[:nf]):
            if t in SEX: h += 'for (int i = 0; i < (int)sizeof(p%d); i++) ((volatile char *)&p%d)[i] = 0x77; ' % (i, i)
        if dots:
            h += 'va_list va; va_start(va, p%d); ' % (nf - 1)
            for i, t in enumerate(ts[nf:]):
                w = 'int' if t in ('char', 'signed char', 'unsigned char', 'short', 'unsigned short', '_Bool') else 'double' if t == 'float' else cty(t)
                h += '{ %s t = va_arg(va, %s); %s } ' % (w, w, hash_of('t', 'double' if t == 'float' else t, r))
        if rt == 'void': ret = 'cb_last = h;'
        elif rt in SEX: ret = '%s res; for (int i = 0; i < (int)sizeof(res); i++) ((unsigned char *)&res)[i] = (unsigned char)(h >> (i & 7) * 8); return res;' % rtn
        elif rt == 'ptr': ret = 'return (char *)h;'
        elif rt == 'float': ret = 'unsigned w = (unsigned)h; return *(float *)&w;'
        elif rt == 'double': ret = 'return *(double *)&h;'
        else: ret = 'return (%s)h;' % rt
        ext = '%s $%s(%s){ u64 h = 7; %s%s }\n' % (rtn, e, ps, h, ret); proto = '%s $%s(%s);\n' % (rtn, e, ps)
        args = []
        for i, t in enumerate(ts):
            k = r.random()
            if t in SC[:9] and k < 0.15: args.append(str(r.choice([0, 1, 5, 100])))
            elif t in SC[:9] and k < 0.3: args.append('(%s)(p%d + %d)' % (t, i, r.randrange(1, 9)))
            elif t in SC[:9] and k < 0.36 and i: args.append('(%s)(p%d ? p%d : 3)' % (t, i, i))
            elif t in SEX and k < 0.3: args.append('*(%s *)&p%d' % (cty(t), i))
            elif t in ('float', 'double') and k < 0.15: args.append('-p%d' % i if nf > i else 'p%d' % i)
            else: args.append('p%d' % i)
        fn = '$' + e
        if via == 'ptr': fn = '(*g)'
        call = '%s(%s)' % (fn, ', '.join(args)); pre = '%s (*g)(%s) = $%s; ' % (rtn, ps, e) if via == 'ptr' else ''
        live = r.choice(['', 'u64 live = (u64)(long long)p0 * 3; ']) if ts and ts[0] in SC[:9] else ''
        after = ' '.join(hash_of('p%d' % i, t, r) for i, t in enumerate(ts))
        if rt == 'void': body = '%s;' % call
        elif rt in SEX: body = '%s v = %s; %s' % (rtn, call, hash_of('v', rt, r)) if r.random() < 0.6 else 'H(%s);' % (SEX[rt][0] % call)
        elif rt in ('float', 'double'): body = '%s v = %s; %s' % (rtn, call, hash_of('v', rt, r))
        else: body = r.choice(['%s v = %s; H(v);' % (rtn, call), 'H(%s);' % call, 'if (%s) H(3);' % call, 'H((long long)%s + (u64)h);' % call] if r.random() < 0.4 else ['%s v = %s; H(v);' % (rtn, call)])
        fsrc = 'u64 %s(%s){ u64 h = 1; %s%s%s %s%s return h; }\n' % (f, params(ts), pre, live, body, 'H(live); ' if live else '', after)
        return proto + fsrc, ext + fsrc, f, '8' + ''.join(sig(t) for t in ts)
    for k in range(300 if c.quick else 2500):
        src = ref = ''; fns = []
        for _ in range(3):
            rt = r.choice(['unsigned long long'] * 4 + ['int'] * 2 + SC + [s[0] for s in ST] + ['ptr'])
            dots = 0; ts = a.proto()
            if r.random() < 0.3:
                ts = [r.choice(['int', 'ptr', 'unsigned long long'])] + ts[:8]; dots = len(ts) - 1
            if '_Bool' == rt: rt = 'unsigned char'
            s, e, f, g = caller(ts, rt, dots, 'ptr' if r.random() < 0.25 else None); src += s; ref += e; fns.append((f, g))
        add(src, fns, ref)
    for t in SC + ['ptr'] + [s[0] for s in ST]: # every type in every slot, and every result
        src = ref = ''; fns = []
        for slot in range(6):
            ts = [r.choice(['int', 'double']) for _ in range(slot)] + [t]; s, e, f, g = caller(ts, t if t != '_Bool' else 'int'); src += s; ref += e; fns.append((f, g))
        add(src, fns, ref)
    # variadic callees
    for k in range(80 if c.quick else 500):
        ts = [t for t in a.proto(r.randrange(1, 8), r.choice(['i', 'if', 'ifs', 'f', 'is']))]; f = '$' + name(); fix = r.choice([1, 1, 2, 3, 5]); body = 'u64 h = 1; va_list va; va_start(va, p%d); ' % (fix - 1); sg = '8' + '4' * fix + 'V'
        for t in ts:
            w = 'int' if t in SC[:5] + ['_Bool'] else 'double' if t == 'float' else cty(t); t = 'int' if w == 'int' else 'double' if t == 'float' else t
            body += '{ %s t = va_arg(va, %s); %s } ' % (w, w, hash_of('t', t, r)); sg += sig(t)
        body += 'va_end(va); ' + ''.join('H(p%d); ' % i for i in range(fix))
        if r.random() < 0.5: body += '{ va_list w2; va_start(w2, p%d); va_list w3; va_copy(w3, w2); %s' % (fix - 1, 'H(va_arg(w3, int)); ' if ts[0] in SC[:7] else '') + '} '
        add('u64 %s(%s, ...){ %sreturn h; }\n' % (f, ', '.join('int p%d' % i for i in range(fix)), body), [(f, sg)])
    # calls between compiled functions, nesting, recursion, evaluation with live values, results used as arguments
    E = '''u64 $e1(u64 a, u64 b){ return a * 3 ^ b; } double $e2(double a, int b){ return *(double *)&a + b; } struct s12 $e3(int a, struct s12 b, char c){ b.a[a & 1] += c; b.a[2] = a; return b; } struct s8 $e4(struct s8 a, struct s16 b){ a.a += (int)b.b; a.b ^= (unsigned)b.a; return a; } float $e5(float a, float b, float c, float d, float e, int f){ return f & 1 ? a : f & 2 ? e : d; } int $e6(int a, int b, int c, int d, int e, int f){ return a + 2 * b + 3 * c + 4 * d + 5 * e + 6 * f; } void $e7(int *a, int b){ *a += b; } signed char $e8(short a){ return (signed char)a; } _Bool $e9(int x){ return x; } struct s3 $e10(struct s3 a){ a.a[1] ^= 7; return a; }
'''
    P = '''u64 $e1(u64 a, u64 b); double $e2(double a, int b); struct s12 $e3(int a, struct s12 b, char c); struct s8 $e4(struct s8 a, struct s16 b); float $e5(float a, float b, float c, float d, float e, int f); int $e6(int a, int b, int c, int d, int e, int f); void $e7(int *a, int b); signed char $e8(short a); _Bool $e9(int x); struct s3 $e10(struct s3 a);
'''
    L = [('844', 'u64 $f(int a, int b){ return $e1($e1(a, b), $e1(b, a)) + $e1(1, 2) * a; }'), ('84444', 'u64 $f(int a, int b, int c, int d){ return (a + $e6(a, b, c, d, $e6(1, 2, 3, a, b, 4), 6)) * (b + $e6(d, c, b, a, 1, 2)) - (c ^ $e6(a, a, b, b, c, c)); }'),
      ('44S12,', 'int $f(int a, struct s12 s){ struct s12 t = $e3(a, $e3(a + 1, s, 3), 4); return t.a[0] + $e3(1, t, 2).a[1] - s.a[2]; }'), ('S8,S8,S16,', 'struct s8 $f(struct s8 a, struct s16 b){ return $e4($e4(a, b), b); }'), ('S8,S8,S16,', 'struct s8 $f(struct s8 a, struct s16 b){ struct s8 x[2]; x[1] = $e4(a, b); x[0] = $e4(x[1], b); x[1].a = x[0].b; return x[1]; }'),
      ('ffffff4', 'float $f(float a, float b, float c, float d, float e, int k){ return $e5(a, b, $e5(c, d, e, a, b, k), d, $e5(e, d, c, b, a, k + 1), k); }'), ('44', 'int $f(int a){ int x = a, y = 5; $e7(&x, y); $e7(&y, x); return x * 3 + y; }'), ('42', 'int $f(short a){ return $e8(a) + $e8((short)(a >> 8)) * 2 + ($e9(a) ? 100 : 0) + $e9(a & 1); }'),
      ('444', 'static int $r(int n, int m){ if (n <= 0) return m; return $r(n - 1, m * 3 + n) + n; } int $f(int n, int m){ return $r(n & 7, m); }'), ('444', 'typedef int (*$t)(int, int); static int $a(int x, int y){ return x - y; } static int $b(int x, int y){ return x ^ y; } static $t $tab[2] = { $a, $b }; static $t $pick(int i){ return $tab[i & 1]; } int $f(int x, int y){ $t q = x & 1 ? $a : $b; return q(x, y) + $tab[y & 1](y, x) * 2 + $pick(x)(1, y) + (*$pick)(y)(y, 3) + (**q)(x, 1); }'),
      ('44', 'int $f(int a){ int h(int x){ return x * 2 + 1; } return h(a) + h(h(a)); }', 'int $f(int a){ return a * 2 + 1 + (a * 2 + 1) * 2 + 1; }'), ('44', 'static int $k(char a, short b, unsigned char c){ return a * 3 + b * 5 + c; } int $f(int a){ return $k(a, a, a) + $k(a >> 8, a >> 16, a >> 24); }'), ('d44', 'static double $k(int a, double b, int c, float d, int e, double g){ return e > c ? b : a > c ? d : g; } double $f(int a, int b){ return $k(a, a, b, b, 3, 2.5) + $k(b, 1, 2, 3, a, 5); }'),
      ('4S40,', 'static int $k(struct s40 a, struct s40 b){ a.a[3] = b.a[4]; return a.a[3] + a.a[9] - b.a[0]; } int $f(struct s40 a){ int x = $k(a, a); return x * 5 + a.a[3]; }'), ('S24,8S24,', 'struct s24 $f(u64 x, struct s24 a){ struct s24 b = a; b.a[1] = x; return x & 1 ? a : b; }'), ('S3,S3,', 'struct s3 $f(struct s3 a){ struct s3 b = $e10($e10(a)); b.a[0]++; return b; }'), ('S12,S12,', 'static struct s12 $k(struct s12 *p){ struct s12 t = *p; t.a[0]++; return t; } struct s12 $f(struct s12 a){ a = $k(&a); a = $k(&a); return a; }'),
      ('44P32,', 'static int *$at(int *p, int i){ return p + i; } int $f(int i, int *p){ *$at(p, i & 7) += 5; $at(p, 3)[1] ^= i; return *$at(p, 4 - (i & 1)); }'), ('444', 'int $f(int a, int b){ int x[700]; for (int i = 0; i < 3; i++) x[i * 300] = a + i; return $e6(x[0], x[300], x[600], b, a, x[0] ^ b); }'), ('444', 'static int $big(int a){ volatile char x[9000]; x[0] = (char)a; x[8999] = (char)(a >> 8); x[4500] = 1; return x[0] + x[8999] * 2 + x[4500]; } int $f(int a, int b){ return $big(a) - $big(b) * 3; }'),
      ('44444444444', 'int $f(int a, int b, int c, int d, int e, int f, int g, int h, int i, int j){ return $e6(j, i, h, g, f, e) - $e6(d, c, b, a, j, $e6(f, g, h, i, j, a)); }'), ('ddddddd', 'double $f(double a, double b, double c, double d, double e, double f){ return $e2($e2(f, 1), 2) > $e2(e, 3) ? $e2(a, (int)1) : d; }'), ('v44P16,', 'void $f(int a, int b, int *o){ o[0] = $e6(a, b, 1, 2, 3, 4); o[1] = (int)$e1(a, b); o[2] = $e9(a) + $e8((short)b); }')]
    for s, t, *o in L:
        k = name(); f = '$' + k; t = t.replace('$f', f); o = o[0].replace('$f', f) if o else t; add(P + t + '\n', [(f, s)], E + o + '\n')
    c.bounds += ['up to 14 parameters, 22 structure and union types of 1 to 40 bytes, all scalar types, all argument values; sampled signatures plus every type in each of the first 6 or 7 slots']
    c.diff('abi', cases, deadline=90 if c.quick else 800)
