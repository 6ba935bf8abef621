"""C19: executables and DLLs."""
from vlib import cstr, VERIF
from implib import implib
LEVEL = 'checked'
TECHNIQUE = 'symbolic execution of the compiler on generated programs up to the image it writes (image base digits symbolic); the image is checked against the format and loaded by the documented rules at three bases, and SMT proves entry point and exports equal to a reference for all arguments'
EXPLAIN = 'A PE loader in the harness checks headers, sections and the import, export, exception, relocation, debug and TLS directories, binds imports to known functions, relocates, and runs entry point and exports with symbolic arguments; with a symbolic image base the solver proves for each relocated cell that it follows the base.'
DLLS = ['alpha.dll', 'b.dll', 'a_rather_long_name_of_a_library.dll', 'Mixed.DLL']
def feature(r, k, x, imps):
    """One group of declarations named with suffix x: (declarations, [(name, sig, definition)])."""
    E = '__declspec(dllexport) long long '; a = r.randrange(2, 90)
    if k == 'ptr': return ('static int v%s[9] = {5, 7, 9, 11}; static int *q%s = &v%s[%d]; const char *s%s = "text%s" + %d; static const char *n%s[3] = {"x%s", 0, "yz%s"};' % (x, x, x, r.randrange(4), x, x, r.randrange(4), x, x, x), [('ptr' + x, '88', E + 'ptr%s(long long a) { const char *t = n%s[(a & 1) * 2]; *q%s += (int)(a & 255); return v%s[0] * 1000 + v%s[3] + *q%s + s%s[0] * 7 + t[a & 1] + (n%s[1] == 0); }' % (x, x, x, x, x, x, x, x))])
    if k == 'pages': m = r.choice([300, 511, 600, 1030]); return ('static char b%s[%d] = {%d}; static char *p%s[%d] = {%s};' % (x, m + 3, a, x, m, ', '.join('b%s + %d' % (x, (i * 7) % (m + 3)) for i in range(m))), [('pages' + x, '88<%d,' % m, E + 'pages%s(long long a) { return p%s[a] - b%s + p%s[%d][0] * 4; }' % (x, x, x, x, m - 1))] if 0 else [('pages' + x, '88', E + 'pages%s(long long a) { return (p%s[%d] - b%s) * 3 + (p%s[%d] - b%s) + (p%s[0][0] + a) + (p%s[%d] - b%s); }' % (x, x, r.randrange(m), x, x, m - 1, x, x, x, r.randrange(m), x))])
    if k == 'packed': return ('#pragma pack(push, 1)\nstatic struct { char c; int *p; char d; long long (*f)(long long); } k%s[%d]; static int w%s = %d; static long long g%s(long long a) { return a - %d; } static struct { char c; int *p; char d; long long (*f)(long long); } h%s[3] = {{1, &w%s, 2, g%s}, {3, &w%s, 4, 0}, {5, 0, 6, g%s}};\n#pragma pack(pop)' % (x, a, x, a, x, a, x, x, x, x, x), [('packed' + x, '88', E + 'packed%s(long long a) { k%s[%d].c = 3; return *h%s[1].p + h%s[0].f(a) * 2 + h%s[2].f(a + 1) + h%s[2].d + (h%s[2].p == 0) + k%s[%d].c; }' % (x, x, a - 1, x, x, x, x, x, x, a - 1))])
    if k == 'fn': return ('static long long s%s(long long a) { return a * %d; } static long long t%s(long long a) { return a + %d; } static long long (*const f%s[4])(long long) = {s%s, t%s, t%s, s%s};' % (x, a, x, a, x, x, x, x, x), [('fn' + x, '88', E + 'fn%s(long long a) { return f%s[a & 3](a); }' % (x, x))])
    if k == 'bss': m = r.choice([1, 100, 5000, 70000]); return ('static char z%s[%d]; static long long c%s; int e%s[3];' % (x, m, x, x), [('bss' + x, '88', E + 'bss%s(long long a) { long long t = z%s[%d] + c%s + e%s[2]; z%s[%d] = (char)(t + 1); c%s += a; e%s[2] = 5; return t; }' % (x, x, m - 1, x, x, x, m - 1, x, x))])
    if k == 'align': al = r.choice([2, 16, 32, 64, 512, 1024, 4096]); ini = r.choice(['', ' = {1}']); th = r.choice(['', '', 'static ', '__declspec(thread) ']); return ('char u%s = 1; %s_Alignas(%d) char y%s[%d]%s;' % (x, th, al, x, r.choice([1, 3, al, al + 1]), ini), [('align' + x, '88', E + 'align%s(long long a) { return ((long long)y%s & %d) + a + u%s + y%s[0]; }' % (x, x, al - 1, x, x))])
    if k == 'tls': al = r.choice([1, 1, 8, 32, 256]); return ('%s int l%s = %d; %s char m%s[%d]; _Alignas(%d) %s static long long o%s = -%d;' % (r.choice(['_Thread_local', '__declspec(thread)']), x, a, '_Thread_local', x, r.choice([1, 3, 64]), max(al, 8), '__declspec(thread)', x, a), [('tls' + x, '88', E + 'tls%s(long long a) { static __declspec(thread) int i%s = 4; long long t = l%s * 3 + m%s[0] + o%s + i%s; l%s += (int)a & 15; m%s[0] += 2; o%s ^= a; i%s++; return t; }' % (x, x, x, x, x, x, x, x, x, x))])
    if k == 'str': return ('', [('str' + x, '88', E + 'str%s(long long a) { const char *s = a & 1 ? "abc" : "abc%s"; const unsigned short *w = L"ab%s"; static const unsigned short u[] = u"q"; return s[a >> 1 & 3] + w[a & 3] * 256 + u[0] + (((long long)w & 1) << 20); }' % (x, x, x)), ('st2' + x, '88', E + 'st2%s(long long a) { const unsigned int *w = U"xy%s"; const char *z = ""; const unsigned short *e = L""; return w[a & 3] + z[0] + e[0] + (((long long)w & 3) << 20) + (((long long)e & 1) << 30); }' % (x, x))])
    if k == 'wide': return ('', [('wide' + x, '88', E + 'wide%s(long long a) { const char *o = "%s"; const char *t = "a\\0b\\0c\\0"; const unsigned short *w = L"abc"; return o[0] + t[a & 6] + (((long long)w & 1) << 20) + w[2]; }' % (x, 'o' * (a % 7)))])
    if k == 'flt': return ('static double d%s = %d.25; static float f%s[2] = {1.5f, %d.125f};' % (x, a, x, a), [('flt' + x, '88', E + 'flt%s(long long a) { double x = d%s * 3.7 + %d.1; float y = f%s[1] * 0.3f; return (long long)(x * 1000) + (long long)(y * 1000.0f) + a; }' % (x, x, a, x))])
    if k == 'switch': return ('', [('sw' + x, '88', E + 'sw%s(long long a) { switch ((int)a & 15) { %s default: return a; } }' % (x, ' '.join('case %d: return %d;' % (i, r.randrange(1000)) for i in range(r.choice([3, 12])))))])
    if k == 'local': return ('', [('loc' + x, '88', E + 'loc%s(long long a) { static int n = %d; static int *p = &n; static const char *t[] = {"q%s", "r"}; static char z[%d]; n += (int)a & 7; z[%d]++; return *p * 3 + t[a & 1][0] + z[%d]; }' % (x, a, x, a, a - 1, a - 1))])
    if k == 'comp': return ('static int *g%s = (int[]){%d, 2, 3}; struct n%s { struct n%s *next; int v; }; static struct n%s a%s = {&(struct n%s){0, %d}, 1};' % (x, a, x, x, x, x, x, a), [('comp' + x, '88', E + 'comp%s(long long a) { g%s[2] += (int)a & 3; return g%s[0] + g%s[2] * 3 + a%s.next->v + (a%s.next->next == 0); }' % (x, x, x, x, x, x))])
    if k == 'call': return ('extern long long v%s(long long); static long long w%s(long long a);' % (x, x), [('call' + x, '88', E + 'call%s(long long a) { return v%s(a) + w%s(a); } long long v%s(long long a) { return a * 3; } static long long w%s(long long a) { return a - %d; }' % (x, x, x, x, x, a))])
    if k == 'self': return ('', [('self' + x, '88', '__declspec(dllexport) long long self%s(long long a); static long long (*const r%s)(long long) = &self%s; ' % (x, x, x) + E + 'self%s(long long a) { long long (*p)(long long) = self%s; return (p == r%s) + (a & 1 ? r%s(a - 1) : a); }' % (x, x, x, x))])
    f = r.choice(imps); 
    if k == 'imp': f[3] = 1; return ('%slong long %s(long long);' % (r.choice(['__declspec(dllimport) ', '__declspec(dllimport) ', '', 'extern ']), f[1]), [('imp' + x, '88', E + 'imp%s(long long a) { return %s(a + 1) - %s(a); }' % (x, f[1], f[1]) if r.random() < .3 else E + 'imp%s(long long a) { return %s(a) + %d; }' % (x, f[1], a))])
    if k == 'impptr': f[3] = 1; return ('%slong long %s(long long); static long long (*i%s)(long long) = %s;' % (r.choice(['__declspec(dllimport) ', '']), f[1], x, f[1]), [('iptr' + x, '88', E + 'iptr%s(long long a) { return i%s(a * 2) + %s(a); }' % (x, x, f[1]))])
    if k == 'imprun': f[3] = 1; return ('%slong long %s(long long);' % (r.choice(['__declspec(dllimport) ', '']), f[1]), [('irun' + x, '88', E + 'irun%s(long long a) { long long (*t)(long long) = %s; return t(a) + t(1); }' % (x, f[1]))])
    if k == 'imploc': f[3] = 1; return ('', [('iloc' + x, '88', E + 'iloc%s(long long a) { __declspec(dllimport) long long %s(long long); return %s(a) * 2; }' % (x, f[1], f[1]))])
    if k == 'unused': f[3] = f[3] or 0; return ('__declspec(dllimport) long long %s(long long); static long long u%s(long long a) { return %s(a); }' % (f[1], x, f[1]), [])
    raise KeyError(k)
KINDS = ['ptr', 'pages', 'packed', 'fn', 'bss', 'align', 'tls', 'str', 'wide', 'flt', 'switch', 'local', 'comp', 'call', 'self', 'imp', 'impptr', 'imprun', 'imploc', 'unused']
def check(c):
    r = c.rng; q = c.quick; progs = []; refs = ['', '', '', '', '', '', '', '']; libs = {}
    def program(ks, ty=None, sym=False):
        i = len(progs); ty = ty or r.choice(['exe', 'dll']); imps = []
        for d in r.sample(DLLS, r.choice([1, 2, 3])):
            for j in range(r.choice([1, 2, 5])): imps.append([d, r.choice('abzQ_') + ''.join(r.choice('abcdXYZ019_') for _ in range(r.choice([1, 4, 7, 20]))) + '_%d' % i, r.randrange(1, 1 << 30), 0, r.choice([None, None, None, 1 + len(imps)]), r.randrange(50)])
        seen = set(); imps = [f for f in imps if not (f[1] in seen or seen.add(f[1]))]
        decls, fns, defs = [], [], []
        for j, k in enumerate(ks):
            d, f = feature(r, k, '_%d_%d' % (i, j), imps); decls.append(d); fns += [(a, b) for a, b, _ in f]; defs += [x for _, _, x in f]
        exe = ty == 'exe'; noentry = not exe and r.random() < .6; entry = ''
        nodyn = 0 if sym else r.random() < .15; debug = r.random() < .08; opts = []
        ename = r.choice(['_start', '_start', 'my_entry'] if exe else ['DllMain', 'my_entry']); sub = 3 if exe else 2; subopt = 0
        if r.random() < .2: s, sub = r.choice([('console', 3), ('windows', 2)]); opts.append('/subsystem:' + s); subopt = 1
        if not noentry:
            callee = r.choice(fns)[0] if fns else None; entry = 'long long %s(long long a) { return %s + 5; }' % (ename, callee + '(a)' if callee else 'a')
            opts += ([] if (ename, subopt) in (('_start', 0), ('DllMain', 0)) else ['/entry:' + ename])
        else: opts.append('/noentry')
        if not exe: opts.append('/dll')
        if nodyn: opts.append('/nodynamicbase')
        if not debug: opts.append('/nodebug')
        base = 0x140000000 if exe else 0x180000000
        if not sym and r.random() < .3: base = r.choice([0x400000, 0x10000000, 0x7ff000000 << 4, 0x123450000]); opts.append(r.choice(['/imagebase:%d', '/imagebase:0x%x', '/imagebase 0x%x']) % base)
        used = {f[0] for f in imps}; libnames = []
        prag = ''
        for d in sorted(used):
            ln = 'l%d_%d.lib' % (i, len(libnames)); libs[ln] = implib(d, [(f[1], f[4], f[5]) for f in imps if f[0] == d]); libnames.append(ln)
            if r.random() < .5: prag += '#pragma comment(lib, "%s")\n' % ln
            else: opts.append(ln)
        r.shuffle(opts); body = decls + defs
        ref = '\n'.join('long long %s(long long a) { return a * 3 + %dll; }' % (f[1], f[2]) for f in imps) + '\n' + '\n'.join(body) + '\n' + entry.replace(ename, 'entry_%d' % i) + '\n'; refs[i % 8] += ref
        if len(ks) > 1 and r.random() < .4:
            # two files
            h = sorted({0, r.randrange(len(ks))}); cut = r.randrange(1, len(ks)); A, B = [], []
            n0 = sum(len(feature_n) for feature_n in [[f for f in fns if f[0].endswith('_%d_%d' % (i, j))] for j in range(cut)])
            src = prag + '\n'.join(decls[:cut] + defs[:n0]) + '\n\1b.c\n' + '\n'.join(decls[cut:] + defs[n0:]) + '\n'
            src = src.replace('\n\1', '\n' + ('long long %s(long long);\n' % callee if entry and callee else '') + entry + '\n\1', 1) if entry else src; files = 'a.c b.c'
        else: src = prag + '\n'.join(body) + '\n' + entry + '\n'; files = 'a.c'
        fl = (0 if exe else 1) | (2 if nodyn else 0) | (4 if debug else 0) | (8 if sym else 0) | (16 if noentry else 0)
        progs.append(('%s%d:%s' % (ty, i, ','.join(ks)), src, 'hlc.exe /no_stdlib /quiet %s %s' % (' '.join(opts), files), 'a.exe' if exe else 'a.dll', fns + ([('@entry_%d' % i, '88')] if not noentry else []), imps, libnames, base, fl, sub))
    for k in KINDS:
        for ty in ('exe', 'dll'): program([k], ty)
    for j in range(70 if q else 700): program([r.choice(KINDS) for _ in range(r.choice([2, 3, 6, 10]))])
    for j in range(14 if q else 100): program([r.choice(['ptr', 'packed', 'fn', 'tls', 'local', 'comp', 'impptr', 'self', 'imp']) for _ in range(r.choice([1, 2, 4]))], sym=True)
    T = ['#include "%s/harness/pe.h"' % VERIF]; decl = set()
    for n in libs: T.append('static const unsigned char L_%s[] = {%s};' % (n[:-4], ','.join(map(str, libs[n]))))
    for i, (n, s, cm, out, fns, imps, ln, base, fl, sub) in enumerate(progs):
        for f, sg in fns: T.append('extern char %s[];' % f.replace('@', ''))
        T.append('static const char t%d[] = %s; static const struct fn f%d[] = {%s};' % (i, cstr(s), i, ','.join('{%s, (void*)%s, %s, 0}' % (cstr('@' if a[0] == '@' else a), a.replace('@', ''), cstr(b)) for a, b in fns)))
        T.append('static const struct imp i%d[] = {%s}; static const struct lib l%d[] = {%s};' % (i, ','.join('{%s,%s,%du,%d,%d,%d}' % (cstr(d), cstr(nm), idv, -1 if o is None else o, h, u) for d, nm, idv, u, o, h in imps), i, ','.join('{%s,L_%s,sizeof L_%s}' % (cstr(x), x[:-4], x[:-4]) for x in ln)))
    T.append('const struct peprog peprogs[] = {%s}; const u32 npeprogs = %d;' % (','.join('{%s,t%d,sizeof t%d-1,%s,%s,f%d,%d,i%d,%d,l%d,%d,%dull,%d,%d}' % (cstr(n), i, i, cstr(cm), cstr(out), i, len(fns), i, len(imps), i, len(ln), base, fl, sub) for i, (n, s, cm, out, fns, imps, ln, base, fl, sub) in enumerate(progs)), len(progs)))
    refs = ['#define __declspec(x)\n#define _Thread_local\n#define dllexport\n#define thread\n' + t for t in refs]
    c.programs += len(progs); c.harness('pe', '\n'.join(T), refs_src=refs, entry='pe_main', deadline=75 if q else 700, expect=('structure', 'compared'))
    c.bounds += ['%d programs of 1 to 10 groups of declarations, one or two source files, 1 to 3 import libraries; every argument of the entry point and of two exports in each order; three load addresses; image bases %s' % (len(progs), 'of seven symbolic digits in %d programs' % (14 if q else 100))]
    c.assumptions += ['the loader rules are those of the PE specification: sections at their addresses, DIR64 relocations, imports bound by name or ordinal, one thread with a TLS block aligned as the TLS directory states', 'the reference is compiled by clang; alignments are up to 4096']
