from gen import *
from vlib import Case
import re
LEVEL = 'translation_validation'
TECHNIQUE = 'symbolic execution of compiled member and bit-field accesses over structures whose bytes are symbolic; SMT equality with a reference compiled for the Windows ABI'
EXPLAIN = 'For generated structures the compiled program reports sizes, alignments and offsets and reads and writes every member of an object whose bytes are all symbolic; the values and every bit of the object after each store are compared with the same text compiled by clang for the MSVC ABI.'
PRE = '''#ifndef DEFS11
#define DEFS11
typedef unsigned long long u64; typedef long long s64;
#endif
#define H(v) (h = (h << 7 | h >> 57) ^ (u64)(v))
#define OFF(T, m) ((u64)(s64)&((T *)0)->m)
'''
SC = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 's64', 'u64', 'float', 'double', '_Bool', 'char *']
WID = {'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned': 32, 'long': 32, 'unsigned long': 32, 's64': 64, 'u64': 64, '_Bool': 1}
class G:
    def __init__(self, r): self.r, self.n, self.m, self.pool = r, 0, 0, []
    def nm(self): self.m += 1; return 'm%d' % self.m
    def fields(self, d, n, bits, pre='', u=False):
        """Member declarations and (path, type, bit width or 0) of the scalars inside."""
        r = self.r; out = []; ac = []
        for _ in range(n):
            k = r.random(); m = self.nm()
            if bits and k < bits:
                t = r.choice(list(WID)); w = 1 if t == '_Bool' else r.choice([1, 2, 3, 4, 5, 7, 8, WID[t], WID[t] - 1, r.randrange(1, WID[t] + 1)])
                w = min(w, WID[t])
                if r.random() < 0.1: out.append('%s : %d;' % (t, r.choice([0, 0, w])) if t != '_Bool' else 'unsigned : %d;' % r.choice([0, 3])); continue
                out.append('%s %s : %d;' % (t, m, w)); ac.append((pre + m, t, w)); continue
            if d > 0 and k > 0.80:
                kind = r.choice(['struct', 'union']); f, a = self.fields(d - 1, r.choice([1, 2, 3]), bits, '', kind == 'union'); q = r.random()
                if not a: continue # a structure without members is an extension
                if q < 0.35: out.append('%s { %s };' % (kind, f)); ac += [(pre + x, t, w) for x, t, w in a]
                elif q < 0.75: out.append('%s { %s } %s;' % (kind, f, m)); ac += [(pre + m + '.' + x, t, w) for x, t, w in a]
                else: out.append('%s { %s } %s[2];' % (kind, f, m)); ac += [(pre + m + '[%d].' % r.randrange(2) + x, t, w) for x, t, w in a]
                continue
            if self.pool and r.random() < 0.3:
                T, a = r.choice(self.pool); z = r.choice([0, 0, 0, 1, 2, 3])
                if z: out.append('%s %s[%d];' % (T, m, z)); q = '[%d].' % r.randrange(z)
                else: out.append('%s %s;' % (T, m)); q = '.'
                ac += [(pre + m + q + x, t, w) for x, t, w in a]; continue
            t = r.choice(SC)
            al = r.random()
            pfx = '_Alignas(%d) ' % r.choice([8, 16]) if al < 0.04 and t != '_Bool' else '__declspec(align(%d)) ' % r.choice([4, 8, 16, 32]) if al < 0.08 and t != 'char *' else ''
            if r.random() < 0.25 and t != 'char *': z = r.choice([1, 2, 3, 5]); out.append('%s%s %s[%d];' % (pfx, t, m, z)); ac.append((pre + m + '[%d]' % r.randrange(z), t, 0))
            else: out.append('%s%s%s%s;' % (pfx, t, ' ' if t[-1] != '*' else '', m)); ac.append((pre + m, t, 0))
        return ' '.join(out), ac
def check(c):
    r = c.rng; cases = []
    def struct(i, bits, pack):
        g = G(r); kind = r.choice(['struct'] * 4 + ['union']); pool = ''
        for j in range(r.choice([0, 0, 1, 2])):
            k = r.choice(['struct', 'struct', 'union']); f, a = g.fields(r.choice([0, 1]), r.choice([1, 2, 3]), bits, '', k == 'union'); pk = r.choice([0, 0, 1, 2, 4]); al = '__declspec(align(%d)) ' % r.choice([8, 16, 32]) if r.random() < 0.15 else ''
            if not a: continue
            dk = r.choice(['tag', 'typedef']) if not al else 'tag'
            d = '%s %s$p%d { %s };' % (k, al, j, f) if dk == 'tag' else 'typedef %s { %s } $p%d;' % (k, f, j)
            pool += ('#pragma pack(push, %d)\n%s\n#pragma pack(pop)\n' % (pk, d) if pk else d + '\n'); g.pool.append((('%s $p%d' % (k, j) if dk == 'tag' else '$p%d' % j), a))
        f, a = g.fields(2, r.choice([1, 2, 3, 4, 5, 6, 8]), bits); T = '%s $t' % kind
        if not a: return None
        head = ''; tail = ''
        if pack: head = r.choice(['#pragma pack(push, %d)\n', '#pragma pack(push)\n#pragma pack(%d)\n', '__pragma(pack(push, %d))\n']) % pack; tail = '\n#pragma pack(pop)\n'
        al = '__declspec(align(%d)) ' % r.choice([1, 2, 8, 16, 64]) if r.random() < 0.06 else ''
        src = PRE + pool + head + '%s %s$t { %s };' % (kind, al, f) + tail + '\n'; fns = []; k = 0
        al = re.search('align\\(64', src); size = 512
        def add(sig, t): nonlocal src, k; n = '$f%d' % k; k += 1; src += t.replace('$f', n) + '\n'; fns.append((n, sig))
        plain = [(x, t) for x, t, w in a if not w]
        add('8', 'u64 $f(void){ u64 h = sizeof(%s) + 1000 * _Alignof(%s); %s struct $w { char c; %s s; char d; }; H(sizeof(struct $w)); H(OFF(struct $w, s)); H(OFF(struct $w, d)); H(sizeof(%s[3])); return h; }' % (T, T, ' '.join('H(OFF(%s, %s));' % (T, x) for x, t in plain), T, T))
        return src, fns, a, T, add, f, kind
    def body(s, ops):
        src, fns, a, T, add, f, kind = s
        def rd(x, t, w, p='p->'):
            e = p + x
            if t in ('float', 'double', 'char *'): return 'H(*(%s *)&%s);' % ('unsigned' if t == 'float' else 'u64', e)
            return 'H((s64)%s);' % e
        # read every member of symbolic bytes (a _Bool that holds neither 0 nor 1 has no meaning)
        def norm(p): return ''.join('*(unsigned char *)&%s%s &= 1; ' % (p, x) for x, t, w in a if t == '_Bool' and not w)
        return rd, norm
    N = 320 if c.quick else 2000
    for i in range(N):
        bits = r.choice([0, 0, 0.4, 0.8, 1]) ; pack = r.choice([0, 0, 0, 1, 2, 4, 8, 16])
        s = struct(i, bits, pack)
        if not s: continue
        src0, fns, a, T, add, f, kind = s; rd, norm = body(s, None)
        c_src = []
        P = 'P%d,' % 256
        z = 'if (sizeof(%s) > 256) return 0; ' % T
        if 'align(32' in f or 'align(64' in src0 or 'Alignas(16' in f or 'align(16' in f: pass
        add('8' + P, 'u64 $f(%s *p){ u64 h = 1; %s%s%s return h; }' % (T, z, norm('p->'), ' '.join(rd(*x) for x in a)))
        for x, t, w in (r.sample(a, min(len(a), 4)) if c.quick else a):
            cast = '' if t not in ('char *',) else '(char *)'
            if t in ('float', 'double'):
                add('v' + P + {'float': 'f', 'double': 'd'}[t], 'void $f(%s *p, %s v){ if (sizeof(%s) > 256) return; p->%s = v; }' % (T, t, T, x)); continue
            if t == 'char *': add('8' + P + '8', 'u64 $f(%s *p, u64 v){ %sp->%s = (char *)v; p->%s += 3; return (u64)p->%s; }' % (T, z, x, x, x)); continue
            ops = ['p->%s = v', 'p->%s = (int)v', 'p->%s |= v', 'p->%s &= v', 'p->%s ^= v']
            if t != '_Bool': ops += ['p->%s += v', 'p->%s -= v', 'p->%s++', '--p->%s', 'p->%s *= (int)v', 'p->%s <<= 1', 'p->%s >>= 1', '++p->%s', 'p->%s--']
            if t == '_Bool' and not w: continue
            wide = w and t in ('s64', 'u64')
            for o in r.sample(ops, 3 if c.quick else min(6, len(ops))):
                if wide: add('v' + P + '8', 'void $f(%s *p, u64 v){ if (sizeof(%s) > 256) return; %s; }' % (T, T, o % x))
                else: add('8' + P + '8', 's64 $f(%s *p, u64 v){ %ss64 q = %s; return q; }' % (T, z, o % x))
            y = r.choice([q for q, tt, ww in a if tt not in ('float', 'double', 'char *') and not (ww and tt in ('s64', 'u64')) and tt != '_Bool'] or ['@'])
            if y != '@' and not wide and t != '_Bool':
                add('8' + P + '4', 's64 $f(%s *p, int k){ %sif (p->%s) k++; if (!p->%s) k += 2; if (p->%s == p->%s) k += 4; if (p->%s < k) k ^= 8; k += p->%s ? 16 : p->%s; s64 q = p->%s = p->%s; return q * 64 + k + (p->%s && p->%s) + -p->%s + ~p->%s; }' % ((T, z) + (x, x, x, y, x, y, x, x, y, x, y, x, y)))
                if w and w < 32 or WID[t] < 32: add('4' + P + '4', 'int $f(%s *p, int k){ %sreturn (p->%s - 1 < 0) + 2 * (p->%s - k < 0) + 4 * (-p->%s < 1) + 8 * ((p->%s << 1) - 3 < 0) + (int)sizeof(p->%s + 0) * 16; }' % (T, z, x, x, x, x, x) if not w else 'int $f(%s *p, int k){ %sreturn (p->%s - 1 < 0) + 2 * (p->%s - k < 0) + 4 * (-p->%s < 1) + 8 * ((p->%s << 1) - 3 < 0); }' % (T, z, x, x, x, x))
        if kind == 'struct' and len(a) > 1:
            sets = [(x, t, w) for x, t, w in a if t not in ('float', 'double', 'char *', '_Bool')]
            add('8' + P + '8', 'u64 $f(%s *q, u64 v){ u64 h = 1; %s%s x, *p = &x; x = *q; %s %s%s *q = x; return h; }' % (T, z, T, ' '.join('x.%s = v >> %d;' % (x, r.randrange(20)) for x, t, w in sets), norm('p->'), ' '.join(rd(*x) for x in a)))
        # the source is rebuilt by add
        import inspect
        src = add.__closure__[[v for v in add.__code__.co_freevars].index('src')].cell_contents
        cases.append(Case('l%d' % i, src, fns))
    # fixed shapes that layouts rules single out
    fixed = ['struct { int a : 3; int b : 5; short c : 4; short d : 12; char e; }', 'struct { char a : 4; int b : 4; char c : 4; }', 'struct { unsigned a : 31; unsigned b : 2; unsigned c : 32; unsigned d : 1; }', 'struct { s64 a : 40; s64 b : 24; int c : 1; s64 d : 63; }', 'struct { int a : 4; int : 0; int b : 4; char c; int : 0; char d; }', 'struct { char a; int : 0; char b; int c : 1; }', 'struct { int : 5; int a : 3; }', 'union { int a : 3; unsigned b : 9; char c; s64 d : 33; }', 'struct { unsigned char a : 1, b : 1, c : 1, d : 5; unsigned short e : 9, f : 7; _Bool g : 1; _Bool h : 1; }', 'struct { struct { char a; }; union { int b; short c[3]; }; struct { double d; char e; } f[2]; char g; }', 'struct { char a; struct { char b; s64 c; } d; char e; union { char f; s64 g; } h; char i; }', 'struct { short a; char b[3]; int c[2]; char d; double e; float f; char g; }']
    src = PRE; fns = []
    for i, f in enumerate(fixed):
        names = re.findall(r'(?<![\w])([a-i])\b(?:\[\d\])?(?: : \d+)?[;,]', f); T = 'struct $F%d' % i if f[0] == 's' else 'union $F%d' % i
        top = re.sub(r'\{[^{}]*\}', '', f[f.index('{') + 1:-1])
        src += f.replace('struct {' if f[0] == 's' else 'union {', T + ' {', 1) + ';\nu64 $g%d(void){ return sizeof(%s) * 64 + _Alignof(%s); }\n' % (i, T, T); fns.append(('$g%d' % i, '8'))
        m = re.findall(r'\b([a-i])(?: : \d+)?(?=[;,])', top)
        for q in m:
            if re.search(r'\} %s' % q, f): continue
            src += 'u64 $s%d_%s(%s *p, u64 v){ p->%s = (int)v; p->%s += 1; return (u64)(s64)p->%s; }\n' % (i, q, T, q, q, q); fns.append(('$s%d_%s' % (i, q), '8P64,8'))
    cases.append(Case('fixed', src, [x for x in fns]))
    ms = PRE + '''struct $b { int x; char y; }; struct $d { char c; struct $b; short z; }; union $e { struct $b; double w; };
u64 $f0(struct $d *p, int v){ p->x = v; p->y++; p->z = p->c; return sizeof(struct $d) * 100 + OFF(struct $d, y) + OFF(struct $d, z) * 1000 + p->x; }
u64 $f1(union $e *p, double v){ p->w = v; p->y = 3; return p->x + sizeof(union $e) * 100; }
typedef struct { char a; short b; } $q; struct $r { $q; int c; }; u64 $f2(struct $r *p){ p->b = 4; p->c += p->a; return sizeof *p; }
struct $v { int n; short a[]; }; u64 $f3(struct $v *p, int i){ p->a[i & 7] = 5; return sizeof(struct $v) + OFF(struct $v, a) * 100 + p->a[1]; }
enum $en { A$ = 3, B$ = -4 }; struct $w { enum $en a; enum $en b : 5; enum $en c : 3; char d; }; u64 $f4(struct $w *p, int v){ p->b = v; p->a = p->b; return sizeof(struct $w) + 100 * _Alignof(enum $en) + p->a; }
struct $x { int (*f)(int); char a[7]; void *q[2]; }; u64 $f5(void){ return sizeof(struct $x) + OFF(struct $x, q) * 1000 + OFF(struct $x, a[3]) * 100000 + sizeof(((struct $x *)0)->a); }
#pragma pack(push, 1)
struct $y { char a; s64 b; struct { short c; double d; } e; int f : 9; char g; };
#pragma pack(pop)
u64 $f6(struct $y *p, u64 v){ p->b = v; p->e.c = (short)v; p->f = v; p->g++; return sizeof *p + OFF(struct $y, e) * 100 + OFF(struct $y, g) * 10000 + p->f; }
struct $z { struct $y a; int b; }; u64 $f7(struct $z *p){ p->b = p->a.g; return sizeof *p + OFF(struct $z, b) * 100 + _Alignof(struct $z) * 10000; }
'''
    cases.append(Case('ms', ms, [('$f0', '8P16,4'), ('$f1', '8P16,d'), ('$f2', '8P16,'), ('$f3', '8P32,4'), ('$f4', '8P16,4'), ('$f5', '8'), ('$f6', '8P40,8'), ('$f7', '8P48,')]))
    c.bounds += ['objects of at most 256 bytes, every byte symbolic; generated structures of up to 8 members, nesting depth 2, packing 1 to 16']
    c.diff('layout', cases, deadline=200 if c.quick else 800)
