"""C18: object files are well-formed."""
from vlib import cstr, VERIF
LEVEL = 'checked'
TECHNIQUE = 'symbolic execution of the compiler on generated programs with symbolic names, sizes, declaration orders and file splits; every structure of the object file it writes is parsed and asserted consistent, SMT decides the assertions over the symbolic bytes, and the code is linked and run in the executor to check what each relocation refers to'
EXPLAIN = 'A COFF reader in the harness checks header, section table, raw data, relocations, symbols, auxiliary records and string table for bounds, disjointness and mutual agreement, and compares the external and static symbols, their sections, offsets, alignments and sizes with those of the program; getters and pointers in initialized data are linked and must yield the address of the symbol named.'
def check(c):
    r = c.rng; q = c.quick; progs = []; L = [1, 2, 7, 8, 9, 10, 15, 16, 17, 31, 64, 127, 200]
    CM = ['hlc.exe /obj /no_stdlib /quiet %s', 'hlc.exe /c /no_stdlib /quiet %s', 'hlc.exe /obj /no_stdlib /quiet /nodebug %s', 'hlc.exe /obj /no_stdlib /quiet /MD %s', 'hlc.exe /obj /no_stdlib /quiet /MT %s']
    def program(tag, nd, nfiles=1, kinds=None, sym=None, order=False):
        used = set(); exp = []; decl = []; user = []; glob = []
        def name(pre=''):
            while 1:
                n = r.choice('abcxyzQ_$') + ''.join(r.choice('abcdefgh019_$XYZ') for _ in range(r.choice(L) - 1))
                if sym == 'name' and len(n) > 2 and not any('\5' in x for x in used): n = n[:-2] + '\5' + n[-1]
                if n not in used and n not in ('do', 'if', 'asm', 'for', 'a', 'b', 'h') and not n.startswith('__'): used.add(n); return n
        for i in range(nd):
            k = r.choice(kinds or 'FFfNnDDDDdddBBBBbbbUUUVVIJGXSSTtDL'); n = name(); al = r.choice([1, 1, 1, 1, 2, 4, 8, 16, 32, 64, 128, 256, 4096]); sz = r.choice([1, 2, 3, 4, 5, 7, 8, 12, 16, 17, 24, 31, 33, 40, 100, 1000]); A = '_Alignas(%d) ' % al if al > 1 else ''; text = ''; getter = True; size = sz; esz = str(sz)
            if sym == 'size' and k in 'DdBbXTtS': esz = '%s%%s' % ('\7' if kinds == 'B' else '\6') % r.choice(['', '', '*3']); m = 3 if '*' in esz else 1; size = 0x80000000 | m
            arr = 'char %s[%s]' % (n, esz)
            if k == 'F': text = r.choice(['int %s(int a) { return a + 1; }', 'extern int %s(int a) { return a * 3; }', 'int %s(int); int %s(int a) { return %s ? a : 1; }', 'double %s(double a) { return a * 2.5 + 1; }', 'char *%s(void) { return "text" ; }', 'float %s(float x) { return x + 0.125f; }', 'double %s(double x) { return x * 0.1 + 3e10 + 0.1f; }', 'void *%s(int i) { return i == 1 ? (void *)"abc" : i == 2 ? (void *)L"w" : i == 3 ? (void *)U"uv" : (void *)&(struct { int a; char *b; }){1, "q"}; }', 'char *%s(int i) { static char *t[] = {"a", "bc", "a"}; return t[i]; }'])
            elif k == 'f': text = 'static int %s(int a) { return a - 1; }'
            elif k == 'N': text = r.choice(['extern int %s(int);', 'extern int %s;', 'extern char %s[];', '__declspec(dllimport) int %s(void);']); getter = False
            elif k == 'n': text = r.choice(['static int %s(int a) { return a; }', 'static int %s = 3;', 'static int %s;', 'typedef int %s;', 'struct %s { int x; };', 'enum { %s };']); getter = False
            elif k == 'D':
                j = r.randrange(6)
                if j == 0 and not sym: text, size, al = A + 'int %s = 7;', 4, max(al, 4) ; text = text if al > 4 else 'int %s = 7;'
                elif j == 1 and not sym: text, size, al = 'const double %s[3] = {1.5, 2.5};', 24, 8
                elif j == 2 and not sym: text, size, al = 'struct { char c; short s; char *p; } %s[2] = {{1, 2, "abc"}};', 32, 8
                elif j == 3: text = 'extern %s %s;\n' % ('char', n + '[]') + A + arr + ' = {1};'
                else: text = A + r.choice(['', 'const ']) + arr + ' = {%d};' % r.randrange(1, 100)
            elif k == 'd': text = 'static ' + A + arr + ' = {2};'
            elif k == 'L': text = 'char *get_%s(void) { static ' % n + A + arr + ' = {3}; return (char *)&%s; }' % n; getter = False; exp.append(('get_' + n, 'F', 0, 0)); k = 'd'
            elif k == 'B': text = r.choice([A + arr + ';', A + arr + '; extern char %s[];' % n, 'extern char %s[]; ' % n + A + arr + ';', A + arr + ';\n' + A + arr + ';'])
            elif k == 'b': text = 'static ' + A + arr + ';'
            elif k == 'U': text = 'extern int %s(int);'; size = 1
            elif k == 'V': text = r.choice(['extern char %s[];', 'extern int %s;', 'extern const struct { int x; } %s;']); size = 0
            elif k == 'I': text = '__declspec(dllimport) int %s(int);'
            elif k == 'J': text = r.choice(['__declspec(dllimport) char %s[];', '__declspec(dllimport) int %s;', '__declspec(dllimport) extern char %s[4];'])
            elif k == 'G': text = '__declspec(dllexport) int %s(void) { return 4; }'
            elif k == 'X': init = r.randrange(2); text = '__declspec(dllexport) ' + A + arr + (' = {1};' if init else ';'); al |= init << 16
            elif k == 'S': text = '__declspec(selectany) ' + A + arr + ' = {9};'
            elif k in 'Tt': text = r.choice(['__declspec(thread) ', '_Thread_local ']) ; text = (text if k == 'T' else 'static ' + text) + A + arr + r.choice([';', ' = {4};'])
            text = text.replace('%s', n); k2 = {'V': 'U', 'J': 'I'}.get(k, k)
            exp.append((n, k2, size, al)); decl.append(text)
            if k in 'Tt': exp.append(('get_' + n, 'F', 0, 0)); user.append('char *get_%s(void) { return (char *)&%s + 1; }' % (n, n)); exp[-1] = ('tls_' + n, 'F', 0, 0); user[-1] = user[-1].replace('get_' + n, 'tls_' + n); continue
            if getter:
                user.append('char *get_%s(void) { return (char *)&%s; }' % (n, n)); exp.append(('get_' + n, 'F', 0, 0))
                if k not in 'IJ' and r.random() < .5: user.append('char *ptr_%s = (char *)&%s + 3;' % (n, n)); exp.append(('ptr_' + n, 'D', 8, 8))
                elif k not in 'IJ' and r.random() < .25: user.append('__declspec(selectany) char *sel_%s = (char *)&%s;' % (n, n)); exp.append(('sel_' + n, 'S', 8, 8))
        parts = [d for d in decl]
        if nfiles == 1:
            if order and nd <= 4: src = '\2'.join(parts) + '\1u.c\n' ; src = '\n'.join(parts + user)
            else: allp = parts + user; src = '\n'.join(allp) + '\n'
            files = 'a.c'
        else:
            g = ''.join(r.choice(['int same%d = 3;' % j, 'static int same = %d; int *use%d(void) { return &same; }' % (j + 1, j)]) for j in [0]); src = '\n'.join(parts + user) + '\nstatic int same = 1; static int loc(void) { return same; } int *use0(void) { return loc() ? &same : 0; }\n\1b.c\nstatic int same = 2; static int loc(void) { return same; } int *use1(void) { return loc() ? &same : 0; } extern int h; int *eh(void) { return &h; } int ev = 3; int ec;\n'
            exp += [('use0', 'F', 0, 0), ('use1', 'F', 0, 0), ('eh', 'F', 0, 0), ('h', 'U', 0, 0), ('ev', 'D', 4, 4), ('ec', 'B', 4, 4), ('same', 'd', 4, 4), ('loc', 'f', 0, 0)]; files = 'a.c b.c'
        progs.append((tag + str(len(progs)), src, r.choice(CM) % files, exp))
    for k in 'FfNnDdLBbUVIJGXSTt':
        for n in (1, 4): program('only' + k, n, kinds=k)
    for i in range(260 if q else 2000): program('mix', r.choice([3, 6, 10, 20]), nfiles=r.choice([1, 1, 1, 2]))
    for i in range(12 if q else 60): program('size', 1 + i % 4 * (1 - i % 2), kinds=['DdBbXTtS', 'B'][i & 1], sym='size')
    for i in range(12 if q else 100): program('name', r.choice([2, 5]), sym='name')
    T = ['#include "%s/harness/coff.h"' % VERIF]
    for i, (n, s, cm, e) in enumerate(progs):
        T.append('static const char t%d[] = %s; static const struct exp e%d[] = {%s};' % (i, cstr(s), i, ','.join("{%s,'%s',%du,%d}" % (cstr(a), b, sz, al) for a, b, sz, al in e)))
    T.append('const struct cprog cprogs[] = {%s}; const u32 ncprogs = %d;' % (','.join('{%s,t%d,sizeof t%d-1,%s,e%d,%d}' % (cstr(n), i, i, cstr(cm), i, len(e)) for i, (n, s, cm, e) in enumerate(progs)), len(progs)))
    c.programs += len(progs); c.harness('coff', '\n'.join(T), entry='coff_main', deadline=70 if q else 600, expect=('structure', 'linked'))
    c.bounds += ['%d programs of 1 to 20 declarations: functions, initialized, zero, static, thread-local, imported, exported, selectany and undefined objects; names of 1 to 200 characters, sizes 1 to 1000, alignments 1 to 4096; one or two source files; %d command lines' % (len(progs), len(CM)), 'a symbolic digit in the sizes of %d programs' % (10 if q else 60)]
    c.assumptions += ['linkers give a common symbol the alignment min(32, size rounded up to a power of two), as lld-link and link.exe do']
