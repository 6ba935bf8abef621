from gen import *
from vlib import Case
import re
LEVEL = 'translation_validation'
TECHNIQUE = 'symbolic execution of compiled pointer, array and structure accesses with symbolic indices and memory contents; SMT equality of the result and of every byte of the objects with the reference'
EXPLAIN = 'Objects are passed by address with every byte symbolic, indices are symbolic inside the object; unmapped memory surrounds each object and all bytes are compared afterwards, so an access that is off by any amount, too wide, too narrow or to the wrong object shows either as a fault or as a difference.'
PRE = '''typedef unsigned long long u64; typedef long long s64;
#ifndef DEFS13
#define DEFS13
struct s3 { char a[3]; }; struct s4 { short a; char b, c; }; struct s5 { char a[5]; }; struct s6 { short a[3]; }; struct s7 { char a[7]; }; struct s8 { int a, b; }; struct s12 { int a[3]; }; struct s16 { s64 a, b; }; struct s20 { int a[5]; }; struct s24 { s64 a[3]; }; struct s40 { struct s8 x[3]; struct s4 y[4]; }; struct s2 { char a, b; }; struct s1 { char a; };
struct deep { char c0; short c1; int c2; struct { char d0[3]; struct { unsigned char e[4]; s64 f; } g[2]; } h; union { float u0; int u1; short u2[2]; } k; };
struct far_ { char pad[200]; int m; char pad2[40000]; short n[4]; };
#endif
'''
SC = ['char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 's64', 'u64', 'float', 'double']
SSZ = {'char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned': 4, 's64': 8, 'u64': 8, 'float': 4, 'double': 8}
CO = {'char': '1', 'unsigned char': '1', 'short': '2', 'unsigned short': '2', 'int': '4', 'unsigned': '4', 's64': '8', 'u64': '8', 'float': 'f', 'double': 'd'}
ST = {'struct s1': 1, 'struct s2': 2, 'struct s3': 3, 'struct s4': 4, 'struct s5': 5, 'struct s6': 6, 'struct s7': 7, 'struct s8': 8, 'struct s12': 12, 'struct s16': 16, 'struct s20': 20, 'struct s24': 24, 'struct s40': 40}
ITY = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'long long', 'unsigned long long']
def icode(t): return str(SIZE[t])
def check(c):
    r = c.rng; fns = []; n = 0
    def add(sig, t):
        nonlocal n
        t = t.replace('$f', '$z%d' % n); t = re.sub(r'\$(?!z\d)(\w)', lambda m: '$q%d%s' % (n, m.group(1)), t); fns.append((t, '$z%d' % n, sig)); n += 1
    N = 5
    # scalar elements, every index type, every way to write the access
    forms = ['p[i]', '*(p + i)', 'i[p]', '*(i + p)', '*&p[i]', '(p + i)[0]', '(&p[1])[(int)i - 1]', '*(p + 4 - (4 - i))', '(&(&p[2])[i])[-2]', '*(T *)((char *)p + i * sizeof(*p))', '((T (*)[1])p)[i][0]', '(p += i)[0]', '*(i, p + i)', '(i ? p + i : p)[0]']
    for t in SC:
        for it in (ITY if not c.quick else r.sample(ITY, 5)):
            for f in r.sample(forms, 3 if c.quick else 8):
                e = f.replace('T', t); sg = 'P%d,%s<%d,' % (N * SSZ[t], icode(it), N)
                add(CO[t] + sg, '%s $f(%s *p, %s i){ return %s; }' % (t, t, it, e))
                add('v' + sg + CO[t], 'void $f(%s *p, %s i, %s v){ %s = v; }' % (t, it, t, e))
            k = r.choice(['p[i] += v', 'p[i] -= v', 'p[i]++', '--p[i]', 'p[i] = p[i] + v', 'p[i] *= v', 'p[i] = p[v > 3]'])
            if 'v > 3' not in k or t not in ('float', 'double'): add(CO[t] + 'P%d,%s<%d,' % (N * SSZ[t], icode(it), N) + CO[t], '%s $f(%s *p, %s i, %s v){ return %s; }' % (t, t, it, t, k))
            if t not in ('float', 'double'): add(CO[t] + 'P%d,%s<%d,%s<%d,' % (N * SSZ[t], icode(it), N, icode(it), N), '%s $f(%s *p, %s i, %s j){ %s t = p[i]; p[i] = p[j]; p[j] = t; p[i] ^= p[j] + 1; return p[(i + j) %% 5u]; }' % (t, t, it, it, t))
        add('8P%d,4<4,' % (N * SSZ[t]), 'u64 $f(%s *p, int i){ %s *q = p + 2; u64 h = 0; %s a = *p++; %s b = *++p; *p-- = a; %s d = p[i - 1]; p[0] = b; q = p; q += i - 1; *q = d; return (q - p) * 1000 + (p - q) + (char *)q - (char *)p; }' % (t, t, t, t, t))
        add('v' + 'P%d,' % (N * SSZ[t]) + 'P%d,4<3,' % (N * SSZ[t]), 'void $f(%s *p, %s *q, int i){ %s *e = p + 5; while (p < e) { *p++ = q[i]; i = (i + 1) %% 5; } %s *const *pp = &q; (*pp)[0] = **pp; pp[0][2] = q[1]; }' % (t, t, t, t))
    cases = cases_of('sc', fns, 8, PRE); fns.clear()
    # structures as elements
    for t, z in ST.items():
        for it in (r.sample(ITY, 3) if c.quick else ITY):
            add('vP%d,P%d,%s<3,' % (3 * z, 3 * z, icode(it)), 'void $f(%s *p, %s *q, %s i){ p[i] = q[2 - i]; q[1] = *(p + i); }' % (t, t, it))
            add('S%d,P%d,%s<3,' % (z, 3 * z, icode(it)), '%s $f(%s *p, %s i){ %s t = p[i]; p[0] = t; return t; }' % (t, t, it, t))
            add('8P%d,%s<3,%s<3,' % (3 * z, icode(it), icode(it)), 's64 $f(%s *p, %s i, %s j){ %s *a = &p[i], *b = p + j; return (a - b) + 100 * (a < b) + 200 * (a == b) + 400 * (a >= b) + 800 * (&p[3] - a) + 100000 * (b - p); }' % (t, it, it, t))
            add('8P%d,P%d,%s<3,' % (3 * z, z, icode(it)), 's64 $f(%s *p, %s *v, %s i){ %s x[3], y = *v, *q; x[0] = p[0]; x[1] = p[i]; x[2] = y; q = x; q[i] = x[1]; *v = q[2]; p[1] = *(x + i); return (char *)&x[2] - (char *)q; }' % (t, t, it, t))
        add('S%d,P%d,P%d,4' % (z, z, z), '%s $f(%s *a, %s *b, int k){ %s x = k & 1 ? *a : *b, y, w; w = y = x; *a = *b = (k & 2 ? y : *a); return (k, w); }' % (t, t, t, t))
        add('vP%d,P8,' % (2 * z), 'void $f(%s *a, %s **o){ *o = a + 1; **o = *a; *(*o - 1) = a[1]; *o = 0; }' % (t, t))
        add('8P%d,8' % (2 * z), 'u64 $f(%s *a, u64 v){ %s *p = (%s *)v; return (u64)(p + 1) - (u64)p + (u64)&p[-1] + (u64)((char *)p + 3) * 3; }' % (t, t, t))
        add('488', 'int $f(u64 x, u64 y){ %s *p = (%s *)x, *q = (%s *)y; return (p < q) + 2 * (p > q) + 4 * (p == q) + 8 * (p != q) + 16 * !p + 32 * (p && q) + 64 * (p <= q) + 128 * (p == 0) + 256 * (q != (void *)0); }' % (t, t, t))
    cases += cases_of('st', fns, 8, PRE); fns.clear()
    # structure members
    D = 72; mem = ['c0', 'c1', 'c2', 'h.d0[i & 1]', 'h.d0[2]', 'h.g[i & 1].e[i & 3]', 'h.g[1].f', 'h.g[i & 1].f', 'h.g[0].e[3]', 'k.u1', 'k.u2[i & 1]', 'k.u2[1]']
    for m in mem:
        for w in ('p->%s', '(*p).%s', 'p[0].%s', '(&*p)->%s', '(p + (i & 0))->%s', '(1 ? p : 0)->%s'):
            e = w % m
            add('8P%d,8' % D, 's64 $f(struct deep *p, u64 i){ return %s; }' % e); add('8P%d,88' % D, 's64 $f(struct deep *p, u64 i, s64 v){ return %s = (int)v; }' % e); add('8P%d,48' % D, 's64 $f(struct deep *p, int i, s64 v){ %s %s v; return &%s - &%s + sizeof(%s); }' % (e, r.choice(['+=', '^=', '-=', '|=']), e, e, e))
        add('8P%d,48' % D, 's64 $f(struct deep *p, int i, s64 v){ struct deep x = *p, *q = &x, y; x.%s = (int)v; y = *q; struct deep z[2]; z[i & 1] = y; z[1 - (i & 1)] = *p; *p = z[0]; return z[1].%s * 3 + y.%s; }' % (m, m, m))
        add('8P%d,4' % D, 's64 $f(struct deep *p, int i){ return (char *)&p->%s - (char *)p + (u64)&((struct deep *)0)->%s; }' % (m, m))
    add('8P%d,4' % D, 's64 $f(struct deep *p, int i){ unsigned char *b = (unsigned char *)p; unsigned char (*e)[4] = &p->h.g[i & 1].e; (*e)[i & 3] = 5; struct deep *q = (struct deep *)(b + 0); return b[i & 31] + (*e)[1] + q->c2 + sizeof(*e) * 10 + sizeof(p->h) * 1000 + sizeof p->h.g[0] * 100000; }')
    F = 200 + 4 + 40000 + 8 + 4 & ~3
    for e in ('p->m', 'p->n[i & 3]', 'p->pad2[39999]', 'p->pad2[i & 32767]', 'p->n[3]', 'p->pad[199]', 'p->pad[i & 127]'):
        if c.quick and 'i &' in e and '32767' in e: continue
        add('44', 's64 $f(int i){ static struct far_ x; struct far_ *p = &x; p->m = 7; p->n[3] = 9; p->n[i & 3] = 3; p->pad2[39999] = 4; p->pad[199] = 2; %s %s; return p->m + p->n[0] * 2 + p->n[1] * 3 + p->n[2] * 5 + p->n[3] * 11 + p->pad2[39999] * 13 + p->pad[199] * 17; }' % (e, '+= 5'))
    # arrays of arrays, arrays of pointers, pointers to arrays and functions
    for t in (['int', 'short', 'char', 's64'] if c.quick else SC[:8]):
        z = SSZ[t]
        add(CO[t] + 'P%d,4<2,4<3,' % (6 * z), '%s $f(%s (*p)[3], int i, int j){ return p[i][j]; }' % (t, t)); add(CO[t] + 'P%d,4<2,4<3,' % (6 * z), '%s $f(%s (*p)[3], unsigned i, unsigned j){ %s *row = *(p + i); row[j] ^= 1; return *(*(p + i) + j) + (*p)[j] + p[1][2]; }' % (t, t, t))
        add(CO[t] + 'P%d,4<2,4<3,4<2,' % (12 * z), '%s $f(%s (*p)[3][2], int i, int j, int k){ p[i][j][k] += 3; %s (*q)[2] = p[1 - i]; q[j][1 - k]--; return q[2][k] - p[0][j][0]; }' % (t, t, t))
        add(CO[t] + '4<2,4<3,' + CO[t], '%s $f(int i, int j, %s v){ %s a[2][3]; for (int x = 0; x < 2; x++) for (int y = 0; y < 3; y++) a[x][y] = (%s)(x * 10 + y); a[i][j] = v; %s *p = &a[0][0]; return (%s)(p[3] + p[i * 3 + j] * 2 + a[1][2] + (&a[1] - &a[0]) + (a[1] - a[0]) + sizeof a + sizeof a[0] + sizeof(*a[0])); }' % (t, t, t, t, t, t))
        add('8P%d,4<4,' % (4 * z), 'u64 $f(%s *p, int i){ %s *t[4] = { p, p + 1, &p[2], p + 3 }, **q = t; *t[i] = 1; q += i; q[0][0] += 2; **(t + 3 - i) ^= 4; return q - t + (t[i] - p) * 16 + sizeof t; }' % (t, t))
        add('8P%d,4<4,' % (4 * z), 'static %s $g[4]; u64 $f(%s *p, int i){ static %s *w = &$g[2]; for (int k = 0; k < 4; k++) $g[k] = p[k]; w[i - 2]++; %s *e = $g + i; *e <<= 1; for (int k = 0; k < 4; k++) p[k] = $g[k]; return e - w; }' % (t, t, t, t))
    misc = [('8P24,P16,4', 'struct $n { struct $n *next; int v; short w; }; s64 $f(u64 *m, int *d, int k){ struct $n a, b, c; a.next = &b; b.next = &c; c.next = &a; a.v = d[0]; b.v = d[1]; c.v = d[2]; a.w = 1; b.w = 2; c.w = 3; struct $n *p = &a; if (k & 1) p = p->next; if (k & 2) p = p->next->next; p->next->next->v += 5; (*p->next).w *= p->w; m[0] = a.v; m[1] = b.v; m[2] = c.v; return a.w + 10 * b.w + 100 * c.w + 1000 * p->next->next->next->v; }'),
      ('488', 'int $f(u64 a, u64 b){ char *p = (char *)a; void *v = p; int *q = v; return ((u64)v == a) + ((u64)(q + 1) == a + 4) * 2 + ((int)a == (int)(u64)p) * 4 + ((unsigned char)(u64)q == (unsigned char)a) * 8 + (p + b == (char *)(a + b)) * 16 + ((u64)&q[(int)b] == a + 4 * (s64)(int)b) * 32 + ((u64)&q[(unsigned)b] == a + 4 * (u64)(unsigned)b) * 64 + ((u64)(q - (short)b) == a - 4 * (s64)(short)b) * 128; }'),
      ('P0'[0:0] + '8P16,8', 'u64 $f(u64 *p, u64 x){ u64 *q = p; *q++ = x; *q = (u64)(q - p); q[-1] += q[0]; --q; return *q++ + *q-- + *q; }'), ('4P16,4<4,', 'int $f(int *p, int i){ int *a = p, *b = p + i; int s = 0; while (a != b) s += *a++; do s ^= *--b; while (b > p && b != p); return s; }'.replace('do', 'if (i) do')),
      ('4P8,', 'int $f(char *p){ union { int i; char c[4]; short s[2]; } u, *q = &u; u.i = 0; q->c[1] = p[0]; u.s[1] = p[1]; q->c[2] ^= p[2]; return u.i + q->s[0]; }'), ('4P40,4', 'int $f(struct s40 *p, int i){ struct s4 *y = p->y + (i & 3); struct s8 *x = &p->x[i & 1]; x[1].a += y->a; y->c = (char)x->b; x->b = y[-(i & 3)].b; *x = x[1]; return (int)(y - p->y) + (int)((char *)x - (char *)p); }'),
      ('4P12,4<3,', 'int $f(int *a, int i){ int x = 1; a[x--] = i; a[i] = x; int *p = a; *p++ += 2; *++p -= 3; p[-1] *= 2; (*--p)++; x = *p-- + 1; return x + *p; }'), ('8P16,', 's64 $f(s64 *p){ s64 **q = &p, ***w = &q; ***w += 1; (**w)[1] = *q[0]; (*w)[0]++; return *p; }'), ('4P20,4<5,', 'static void $s(int *a, int *b){ int t = *a; *a = *b; *b = t; } int $f(int *p, int i){ $s(p + i, &p[4 - i]); $s(&p[0], p); return p[i]; }'),
      ('4P8,8', 'int $f(unsigned char *p, u64 v){ *(unsigned short *)p = (unsigned short)v; *(unsigned *)(p + 3) = (unsigned)v; *(short *)(p + 1) += 1; return *(int *)(p + 2) + *(signed char *)p; }'), ('4P32,4', 'typedef int $a[4]; int $f($a *p, int i){ $a x; for (int k = 0; k < 4; k++) x[k] = p[i & 1][k]; (*p)[i & 3] = 9; int *q = *(p + 1); q[3 - (i & 3)] = x[1]; return x[i & 3] + (int)sizeof($a) + (int)sizeof *p; }'),
      ('8P16,4', 's64 $f(double *p, int i){ double *q = p + (i & 1), x = *q; float y = (float)(i & 7); *q = y; p[1 - (i & 1)] = x; return (s64)(q - p) + (s64)*q; }'), ('1P8,1<8,', '_Bool $f(_Bool *p, unsigned char i){ unsigned char *c = (unsigned char *)p; for (int k = 0; k < 8; k++) c[k] &= 1; p[i] = i; p[7 - i] = !p[i]; return p[i] ^ p[3]; }'), ('44', 'int $f(int n){ int a[3] = { n, n + 1, n + 2 }, (*p)[3] = &a, *q = *p; return (*p)[1] + q[2] + *a + 0[a] + *(a + 1) + (p + 1 == (void *)(a + 3)) + (int)sizeof(*p); }'),
      ('4P12,4<3,', 'int $f(int *restrict p, int i){ volatile int *v = p; const int *c = p; v[i] = v[i] + c[0]; return *v + *c; }'), ('844', 's64 $f(int i, int j){ char *s = "hello\\0world"; return s[i & 7] + "abcdefgh"[j & 7] * 256 + *("xyz" + (i & 1)) * 65536 + sizeof("abc") + (&"pqr"[2])[-1]; }'), ('4S24,4<3,', 'int $f(struct s24 s, int i){ struct s24 *p = &s; s.a[i] = 5; p->a[2 - i] += s.a[1]; return (int)(p->a[0] + s.a[1] * 2 + (*p).a[2] * 3); }'),
      ('S24,P48,4<2,', 'struct s24 $f(struct s24 *p, int i){ return *(p + i); }'), ('8P48,4<2,', 's64 $f(struct s24 *p, int i){ return (p[i] = p[1 - i]).a[1] + (*p).a[0]; }'), ('4P40,P40,', 'int $f(struct s20 *p, struct s20 *q){ struct s20 *t[2] = { p, q }; *t[0] = *t[1]; t[1][1] = t[0][0]; *p = *p; return t[1]->a[4] + p->a[0]; }')]
    misc += [('84', 's64 $f(int i){ %s *p = (%s *)64 + 3, *q = (%s *)640 - 2; return (s64)p + (s64)q * 3 + (s64)((%s *)0 + 5) + (s64)(i + (%s *)16) + (s64)(2 + (%s *)16) + (s64)&((%s *)0)[i] + (s64)&i[(%s *)8] + (q - p) + (p - q); }'.replace('%s', t)) for t in ['char', 'short', 'int', 's64', 'struct s3', 'struct s12', 'struct s40']]
    # the value of a structure assignment used as an operand
    for kind, mem, size, mems in [('struct', 'int a;', 4, ['a']), ('struct', 'signed char a, b; short c;', 4, ['a', 'b', 'c']), ('struct', 'char a;', 1, ['a']), ('struct', 'unsigned char a; signed char b[1];', 2, ['a', 'b[0]']), ('union', 'int a; signed char b[4]; short c;', 4, ['a', 'b[2]', 'c']), ('struct', 's64 a;', 8, ['a']), ('struct', 'struct { int x; } a; struct { unsigned short y[2]; } b;', 8, ['a.x', 'b.y[1]', 'b.y[i & 1]']), ('struct', 'int a[3];', 12, ['a[1]', 'a[i & 1]']), ('union', 'unsigned a; u64 b;', 8, ['a', 'b'])]:
        T = '%s $n { %s }' % (kind, mem); t = '%s $n' % kind
        for m in mems:
            add('8P%d,P%d,4' % (2 * size, 2 * size), T + '; s64 $f(void *p, void *q, int i){ %s *a = p, *b = q, l; s64 r = (*a = b[1]).%s; r = r * 7 + (l = *b).%s; r = r * 7 + (i & 1 ? (a[1] = *b) : l).%s + (0, l = a[0]).%s; return r * 3 + (l = a[1] = b[0]).%s + l.%s; }' % (t, m, m, m, m, m, m))
            add('8P%d,P%d,4' % (2 * size, 2 * size), T + '; static s64 $g(%s x, int i, %s y){ return x.%s * 5 + y.%s + i; } s64 $f(void *p, void *q, int i){ %s *a = p, *b = q, c[2]; return $g(*a = b[1], (c[i & 1] = *b).%s, c[!(i & 1)] = a[1]) * 3 + (c[0] = c[1] = *a).%s; }' % (t, t, m, m, t, m, m))
    for s, t in misc: add(s, t)
    cases += cases_of('mix', fns, 4, PRE)
    c.bounds += ['objects of up to 5 elements or 72 bytes with every byte symbolic, indices of every integer type over the whole object; 13 structure types of 1 to 40 bytes, one with offsets above 40000']
    c.diff('mem', cases, deadline=100 if c.quick else 800)
