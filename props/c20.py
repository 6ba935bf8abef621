"""C20: unwind information."""
from vlib import Case
LEVEL = 'translation_validation'
TECHNIQUE = 'symbolic execution of the compiled functions with symbolic arguments; before every instruction a C implementation of the documented x64 unwind procedure runs on the symbolic machine state and the emitted .pdata/.xdata and its result is checked against the state at entry'
EXPLAIN = 'For generated functions of every frame shape the harness unwinds from each instruction boundary of each explored path through all compiled frames to the caller, and checks that instruction pointer, stack pointer, the callee-saved general registers and xmm6 to xmm15 are those of the caller. Statically every function symbol has exactly one entry with well-formed, ordered unwind codes.'
SIZES = [0, 1, 8, 16, 24, 56, 64, 72, 80, 88, 96, 100, 104, 112, 120, 128, 136, 144, 160, 240, 248, 256, 512, 1000, 1016, 1024, 2040, 3968, 3976, 3984, 3992, 4000, 4040, 4048, 4056, 4064, 4072, 4080, 4088, 4096, 4104, 4112, 8184, 8192, 32760, 32768, 65000, 65520, 65528, 65536, 65544, 131072, 200000, 262144, 524000, 524160, 524200, 524208, 524216, 524224, 524232, 524240, 524248, 524256, 524264, 524272, 524280, 524288, 524296, 524304, 600000, 1048576, 1500000]
PRE = '''typedef long long s64; typedef unsigned long long u64;
#ifndef DEFS20
#define DEFS20
struct big { int a[20]; }; struct s3 { char c[3]; }; struct s8 { int x, y; }; struct s12 { int x, y, z; };
#endif
'''
def check(c):
    r = c.rng; q = c.quick; cases = []; nn = [0]
    def prog(tag, bodies, cmd='hlc.exe /obj /no_stdlib /quiet a.c', ref=None):
        fns = []; src = ''; rs = ''
        for sig, b in bodies:
            n = nn[0]; nn[0] += 1; t = b.replace('$f', '$z%d' % n); import re
            t = re.sub(r'\$(?!z\d)(\w)', lambda m: '$q%d%s' % (n, m.group(1)), t); src += t + '\n'; fns.append(('$z%d' % n, sig))
        k = dict(cmd=cmd) if cmd else {}
        cases.append(Case('%s%d' % (tag, len(cases)), PRE + src, fns, ref=PRE + src.replace('__declspec(noinline)', ''), **k))
    # frame sizes
    sz = SIZES; 
    for i in range(0, len(sz), 3):
        b = []
        for s in sz[i:i + 3]:
            if s: b.append(('44<2,4', 'int $f(unsigned i, int v){ volatile char x[%d]; if (i) { x[%d] = (char)v; v += x[%d]; } x[0] = 5; return x[0] + v; }' % (s, s - 1, s - 1)))
            else: b.append(('44', 'int $f(int v){ return v + 1; }')); b.append(('v', 'void $f(void){ }'))
            b.append(('d4<2,d', 'double $f(unsigned i, double v){ %s if (i & 1) return v; return v * 2 + x[i & 0]; }' % ('char x[%d]; x[i & 0] = 1;' % s if s else 'char x[1] = {1};')))
        prog('size', b)
    # calls between compiled functions: several frames, arguments on the stack, structures by value, recursion, early returns
    calls = [
     ('44<6,', 'static int $g(int n){ int x[9]; x[n] = n; return n ? $g(n - 1) + x[n] : 1; } int $f(int n){ return $g(n); }'),
     ('4444444', 'static int $g(int a, int b, int c, int d, int e, int f, int g){ return a - b + c * d - e * (f & 7) + g; } int $f(int a, int b, int c, int d, int e, int f){ int r = $g(a, b, c, d, e, f, 5); return r + $g(f, e, d, c, b, a, r); }'),
     ('4P80,4<20,', 'static struct big $g(struct big b, int i){ b.a[i] += 3; return b; } int $f(struct big *p, int i){ struct big t = $g(*p, i); return t.a[i] + $g(t, 2).a[1]; }'),
     ('dddd', 'static double $g(double a, double b, double c, double d, double e, double f){ return a - b + c * d - e / (f + 1); } double $f(double a, double b, double c){ double x = $g(a, b, c, c, b, a); return x + $g(x, a, x, b, x, c); }'),
     ('44', 'static int $g(int x){ if (x < 0) return -1; if (x == 0) return 0; for (int i = 0; i < 3; i++) { if (x == i) return i * 7; } return 1; } int $f(int x){ return $g(x) * 10 + $g(x - 3); }'),
     ('44', 'static int $g(char *f, ...){ s64 *p = (s64 *)&f; return (int)p[1] + (int)p[4] * 2; } int $f(int x){ return 1; }'),
     ('444', 'static int $a(int x){ return x + 1; } static int $b(int x){ return x * 2; } int $f(int k, int x){ int (*t[2])(int) = {$a, $b}; return t[k & 1](x) + t[1](t[0](x)); }'),
     ('4P12,P12,', 'static struct s12 $g(struct s12 a, struct s12 b){ struct s12 t = {a.x + b.z, a.y - b.y, a.z ^ b.x}; return t; } int $f(struct s12 *p, struct s12 *q){ *p = $g($g(*p, *q), $g(*q, *p)); return p->x; }'),
     ('44', 'static int $e(int x){ char t[5000]; t[x & 1 ? 4999 : 3] = 3; return t[x & 1 ? 4999 : 3] + x; } static int $d(int x){ return $e(x) + 1; } static int $c(int x){ char b[100]; b[0] = (char)x; return $d(x) + b[0]; } int $f(int x){ return $c(x) + $d(x); }'),
     ('8P64,4<8,', 's64 $f(s64 *p, int i){ s64 a = p[0], b = p[1], e = p[2], d = p[3], f = p[4]; return ((a + b) * (e + d) - ((a - e) * (b - d) + (f ^ a) * ((a + e) * (b + f) - p[i]))) + (a << (b & 7)) / ((e & 15) + 1); }'),
     ('44', 'int $f(int x){ switch (x) { case 1: return 5; case 2: x += 3; break; case 3: { int y[30]; y[x] = 2; x += y[3]; } default: x *= 2; } while (x > 100) { x -= 1000000000; } return x; }'),
     ('vP16,', 'void $f(s64 *p){ if (!p) return; p[0]++; if (p[0] > 5) return; p[1] = p[0]; }'),
     ('f4f', 'float $f(int i, float v){ float a[7] = {1, 2, 3, v}; a[i & 3] += v; return a[3]; }'),
     ('44', 'static __declspec(noinline) int $g(int x){ return x; } __declspec(noinline) int $f(int x){ return $g(x); }'),
     ('488', 'int $f(u64 a, u64 b){ return (int)(a / (b | 1)) + (int)(a % (b | 1)) + (a > b) + (a << (b & 63) > 7); }'),
    ]
    for i in range(0, len(calls), 4): prog('call', calls[i:i + 4])
    # dynamic allocation on the stack
    al = [('44<3,', 'void *_alloca(u64); int $f(unsigned n){ char *p = _alloca(n * 13 + 1); p[n] = 3; p[0] += 2; return p[n]; }'),
          ('44<3,4', 'void *_alloca(u64); static int $g(int *p, int x){ return *p + x; } int $f(unsigned n, int v){ int s = 0; for (int i = 0; i < 3; i++) { int *p = _alloca(n * 4 + 16); p[1] = v + i; s += $g(p + 1, s); } return s; }'),
          ('44', 'void *_alloca(u64); int $f(int v){ int *p = _alloca(10000); p[2000] = v; return p[2000] + 1; }')]
    prog('alloca', al, ref=None)
    # random mixes
    for ci in range(40 if q else 400):
        b = []
        for k in range(4):
            s = r.choice([0, r.randrange(1, 300), r.randrange(3900, 4200), r.randrange(1, 9000), r.randrange(65000, 66000)]); np = r.randrange(0, 8); ty = [r.choice(['int', 'double', 's64', 'char', 'float']) for _ in range(np)]; cc = {'int': '4', 'double': 'd', 's64': '8', 'char': '1', 'float': 'f'}
            ps = ', '.join('%s p%d' % (t, i) for i, t in enumerate(ty)) or 'void'; args = ', '.join('p%d' % i for i in range(np)); rt = r.choice(['int', 's64', 'double'])
            pre = 'volatile char x[%d]; x[%d] = 1;' % (s, s - 1) if s else ''
            mid = r.choice(['', 'if (%s) return 3;' % (r.choice(['p%d > 1' % i for i in range(np)] or ['0'])), 'for (int i = 0; i < 2; i++) { int y[%d]; y[i] = i; s += y[i]; }' % r.choice([2, 40, 700])])
            g = '%s $g(%s){ %s %s s = 0; %s %s return s; }' % (rt, ps, pre, rt, mid, ' '.join('s += (%s)p%d;' % (rt, i) for i in range(np)))
            depth = r.randrange(1, 3); src = 'static ' + g
            if depth == 2: s2 = r.choice([0, 50, 5000]); src += ' static %s $h(%s){ %s return $g(%s) + 1; }' % (rt, ps, 'char z[%d]; z[0] = 2;' % s2 if s2 else '', args)
            src += ' %s $f(%s){ return %s(%s) + $g(%s); }' % (rt, ps, '$h' if depth == 2 else '$g', args, args)
            b.append((cc[rt] + ''.join(cc[t] for t in ty), src))
        prog('mix', b)
    cs = c.valid(cases)
    c.diff('unwind', cs, inc='#define STACK_SIZE 0x800000\n#include "%s/harness/unw.h"' % __import__('vlib').VERIF, entry='unw_main', deadline=100 if q else 800)
    c.bounds += ['%d functions: frame sizes 0 to 1500000 bytes around the boundaries of the unwind encodings and of page probing, up to 7 arguments, calls up to 7 frames deep, recursion, early returns, _alloca' % sum(len(x.fns) for x in cs), 'every instruction boundary of every explored path, all argument values']
    c.assumptions += ['the body of __chkstk is not part of the compiler', 'functions with __try or inline assembly that moves the stack pointer are not used']
