"""C14: order of the declarations and split over files."""
from vlib import Case
LEVEL = 'checked'
TECHNIQUE = 'symbolic execution of the compiler on every order and every split of small declaration sets (the order is a choice of the explored state) and on generated permutations of larger ones, SMT comparison of the compiled functions with the declarations in their C order compiled by clang, for all arguments'
EXPLAIN = 'For each set of declarations the engine executes the compiler for every order (and every assignment to two files) and then decides for all arguments that each function returns what the reference returns. Larger programs with mutually dependent types, enumerators, globals, functions and static assertions are compiled in generated orders and file splits.'

class Gen:
    def __init__(s, r, files=1): s.r = r; s.n = 0; s.types = []; s.ints = []; s.consts = []; s.glob = []; s.fns = []; s.structs = []; s.pieces = []; s.protos = []; s.arrs = []; s.ptrs = []; s.fptrs = []; s.files = files; s.fnames = []
    def nm(s, p): s.n += 1; return '$%s%d' % (p, s.n)
    def ce(s): # an integer constant expression and a bound on it
        r = s.r; k = r.random()
        if s.consts and k < 0.45: return r.choice(s.consts)
        if s.types and k < 0.7: return '(int)sizeof(%s)' % r.choice(s.types + ['int', 'char *'])
        if s.arrs and k < 0.8: return '(int)sizeof(%s)' % r.choice(s.arrs)
        return str(r.choice([1, 2, 3, 5, 7, 100]))
    def ctype(s): return s.r.choice(s.types + s.ints + ['int', 'unsigned char', 'unsigned long long', 'short'])
    def itype(s): return s.r.choice(s.ints * 2 + ['int', 'unsigned char', 'unsigned long long', 'short', 'long long'])
    def add(s, text, ref=None, fn=False): s.pieces.append((text, text if ref is None else ref))
    def enum(s):
        n = s.nm('e'); m = [s.nm('A'), s.nm('B'), s.nm('C')]
        tag = s.r.choice(['enum %s { %%s };' % n, 'typedef enum %s { %%s } %st;' % (n, n), 'enum { %s };'])
        s.add(tag % ('%s = (%s) %% 13, %s, %s = %s + (%s) %% 5' % (m[0], s.ce(), m[1], m[2], m[0], s.ce()))); s.consts += m
    def typedef(s):
        n = s.nm('T'); k = s.r.random()
        if k < 0.5: s.add('typedef %s %s;' % (s.itype(), n)); s.ints.append(n)
        elif k < 0.8: s.add('typedef %s %s[(%s) %% 5 + 1];' % (s.ctype(), n, s.ce())); s.types.append(n)
        else: s.add('typedef %s *%s;' % (s.ctype(), n)); s.types.append(n)
    def struct(s):
        n = s.nm('S'); k = s.r.random(); mem = []; fields = []
        for i in range(s.r.choice([1, 2, 3])):
            f = 'm%d' % i; q = s.r.random()
            if q < 0.4: mem.append('%s %s;' % (s.itype(), f)); fields.append(f)
            elif q < 0.55: mem.append('unsigned %s : (%s) %% 20 + 1;' % (f, s.ce())); fields.append(f)
            elif q < 0.75: mem.append('%s %s;' % (s.ctype(), f))
            elif q < 0.9: mem.append('%s %s[(%s) %% 4 + 1];' % (s.ctype(), f, s.ce()))
            else: mem.append('struct %s *%s;' % (n, f))
        mem.append('%s z;' % s.itype()); fields.append('z')
        body = '{ %s }' % ' '.join(mem); kw = s.r.choice(['struct', 'struct', 'struct', 'union'])
        if kw == 'union': body = body.replace('struct %s *' % n, 'union %s *' % n)
        if k < 0.4: s.add('%s %s %s;' % (kw, n, body)); t = '%s %s' % (kw, n)
        elif k < 0.7: s.add('typedef %s %s %s %s;' % (kw, n, body, n)); t = n
        else: s.add('typedef %s %s %s;' % (kw, n, n + 'x')); s.add('%s %s %s;' % (kw, n, body)); t = n + 'x'
        s.types.append(t); s.structs.append((t, fields))
    def sassert(s):
        if not s.types: return
        s.add('_Static_assert(sizeof(%s) %% _Alignof(%s) == 0 && (%s) < 100000, "size");' % ((s.r.choice(s.types),) * 2 + (s.ce(),)))
    def globl(s):
        n = s.nm('g'); k = s.r.random(); st = s.r.choice(['', '', 'static ']) if s.files == 1 else ''
        if k < 0.25: s.add('%s%s %s = (%s) %% 100;' % (st, s.itype(), n, s.ce())); s.glob.append(n)
        elif k < 0.4: s.add('%sunsigned long long %s[] = { %s, %s, sizeof(%s) };' % (st, n, s.ce(), s.ce(), s.ctype())); s.arrs.append(n); s.glob += [n + '[1]', n + '[2]']
        elif k < 0.6 and s.structs:
            t, f = s.r.choice(s.structs); x = s.r.choice(f); s.add('%s%s %s = { .%s = (%s) %% 2 };' % (st, t, n, x, s.ce())); s.glob.append('%s.%s' % (n, x)); s.glob.append('(unsigned)sizeof(%s)' % n)
        elif k < 0.75 and s.glob:
            g = s.r.choice([g for g in s.glob if '.' not in g and '(' not in g] or ['']); 
            if g: s.add('%svoid *%s = &%s;' % (st, n, g)); s.glob.append('(%s == &%s)' % (n, g))
        elif s.fnames:
            f = s.r.choice(s.fnames); s.add('%sunsigned long long (*%s)(unsigned long long, unsigned long long) = %s;' % (st, n, s.r.choice(['', '&']) + f)); s.fptrs.append(n)
        elif s.files == 1: s.add('%sint %s;' % (st, n)); s.add('%sint %s = 5;' % (st, n)); s.glob.append(n)
        else: s.add('%sint %s = 7;' % (st, n)); s.glob.append(n)
    def term(s):
        r = s.r; k = r.random()
        if s.glob and k < 0.35: return '(unsigned long long)%s' % r.choice(s.glob)
        if s.consts and k < 0.5: return r.choice(s.consts)
        if s.types and k < 0.65: return 'sizeof(%s)' % r.choice(s.types)
        if s.ints and k < 0.85: return '(unsigned long long)(%s)%s' % (r.choice(s.ints), r.choice(['x', '-x', '(x)', '~x', '+n', '(x + n)']))
        return r.choice(['x', 'n', '7'])
    def body(s, name, last):
        r = s.r; o = []
        for _ in range(r.choice([1, 2, 3])):
            k = r.random()
            if k < 0.25 and s.structs:
                t, f = r.choice(s.structs); v = s.nm('v').replace('$', 'l'); m = r.choice(f)
                o.append('%s %s = {0}; %s *p%s = &%s; p%s->%s = %s; r += %s.%s + sizeof %s;' % (t, v, t, v, v, v, m, s.term(), v, m, v))
            elif k < 0.35 and s.ints: v = s.nm('v').replace('$', 'l'); o.append('%s %s = (%s)(%s); r ^= %s;' % (r.choice(s.ints), v, r.choice(s.ints), s.term(), v))
            elif k < 0.45 and s.types: v = s.nm('v').replace('$', 'l'); t = r.choice(s.types); o.append('%s *%s = 0; r += (unsigned long long)(%s + 1);' % (t, v, v) if '[' not in t else ';')
            elif k < 0.55 and s.consts: c = r.choice(s.consts); o.append('switch ((int)(x & 15)) { case %s: r += 3; break; default: r ^= 5; }' % c)
            elif k < 0.65 and s.glob: g = r.choice(s.glob); o.append('%s ^= x; r += %s;' % (g, g) if '(' not in g and 'p' not in g else 'r += %s;' % g)
            elif k < 0.75 and s.fptrs: o.append('r += n ? %s(n - 1, r) : 1;' % r.choice(s.fptrs))
            elif k < 0.8 and s.consts: v = s.nm('v').replace('$', 'l'); o.append('static unsigned char %s[(%s) %% 7 + 2]; %s[1] = x; r += %s[1] + sizeof(%s);' % (v, s.ce(), v, v, v))
            else: o.append('r = r * 3 + %s;' % s.term())
        for _ in range(r.choice([0, 1, 1, 2])): o.append('if (n) r ^= %s(n - 1, r + %s);' % (r.choice(s.fnames), s.term()))
        return 'unsigned long long r = x; %s return r;' % ' '.join(o)
    def program(s, n):
        nf = s.r.choice([1, 2, 3]) if n < 9 else s.r.choice([3, 4, 5])
        s.fnames = [s.nm('f') for _ in range(nf)]
        for _ in range(n - nf): s.r.choice([s.enum, s.typedef, s.struct, s.struct, s.globl, s.globl, s.sassert])()
        fp = []
        for f in s.fnames: 
            st = ''; h = 'unsigned long long %s(unsigned long long n, unsigned long long x)' % f
            fp.append((st + h + ' { ' + s.body(f, f == s.fnames[-1]) + ' }', h + ';'))
        ref = ''.join(p[1] + '\n' for p in fp) + '\n'.join(p[1] for p in s.pieces) + '\n' + '\n'.join(p[0] for p in fp) + '\n'
        return [p[0] for p in s.pieces] + [p[0] for p in fp], ref
def check(c):
    r = c.rng; q = c.quick
    def sig(fs, k=2): return [(f, '88<%d,8' % k, 20000000) for f in fs]
    # all orders of small sets
    cs = []
    while len(cs) < (48 if q else 400):
        g = Gen(r); p, ref = g.program(r.choice([4, 4, 5]) if q else r.choice([4, 5, 5, 6]))
        if len(p) > (5 if q else 6): continue
        cs.append(Case('order%d' % len(cs), '\x02'.join(p), sig(g.fnames), ref=ref))
    cs = c.valid(cs); c.extra['sets_in_all_orders'] = len(cs)
    c.diff('orders', cs, expect=('compiled', 'compared'), deadline=90 if q else 800)
    # all orders and all splits over two files
    cs = []
    while len(cs) < (8 if q else 120):
        g = Gen(r, 2); p, ref = g.program(4)
        if len(p) > 4: continue
        cs.append(Case('split%d' % len(cs), '\x03'.join(p), sig(g.fnames), ref=ref, cmd='hlc.exe /obj /no_stdlib /quiet a.c b.c'))
    cs = c.valid(cs); c.extra['sets_in_all_splits'] = len(cs)
    c.diff('splits', cs, expect=('compiled', 'compared'), deadline=90 if q else 800)
    # larger programs
    cs = []
    for i in range(600 if q else 6000):
        nf = r.choice([1, 1, 2, 3]); g = Gen(r, nf); p, ref = g.program(r.choice([8, 12, 16, 24])); r.shuffle(p)
        if nf == 1: src = '\n'.join(p); cmd = 'hlc.exe /obj /no_stdlib /quiet a.c'
        else:
            parts = [[] for _ in range(nf)]; refs = ref
            for x in p:
                k = r.randrange(nf)
                # every file has a static function of the same name; functions of the file call it
                if x.startswith('unsigned long long $f') and x.endswith(' return r; }') and r.random() < 0.7:
                    y = x[:-len(' return r; }')] + ' r += LOC(n); return r; }'; h = x[:x.index('{')]
                    refs = refs.replace(x, y.replace('LOC(', '$loc%d(' % k)); x = y.replace('LOC(', '$loc(')
                parts[k].append(x)
            loc = lambda k, n: 'static unsigned long long %s(unsigned long long n) { %s return n * %d + vv++; }' % (n, ('static int vv = %d;' % (k * 3)), k + 5)
            for k in range(nf): parts[k].insert(r.randrange(len(parts[k]) + 1), loc(k, '$loc'))
            ref = '\n'.join(loc(k, '$loc%d' % k) for k in range(nf)) + '\n' + refs
            names = ['a.c', 'b.c', 'c.c'][:nf]
            if r.random() < 0.3: parts[0].insert(r.randrange(len(parts[0]) + 1), '\n' + '\n'.join('#pragma compilation_unit("%s")' % x for x in names[1:]) + '\n'); cmd = 'hlc.exe /obj /no_stdlib /quiet a.c'
            else: cmd = 'hlc.exe /obj /no_stdlib /quiet ' + ' '.join(names)
            src = '\n'.join(parts[0]) + ''.join('\x01%s\n%s' % (names[k], '\n'.join(parts[k])) for k in range(1, nf))
        cs.append(Case('large%d' % i, src, sig(g.fnames, 3), ref=ref, cmd=cmd))
    cs = c.valid(cs)
    c.diff('large', cs, expect=('compiled', 'compared'), deadline=100 if q else 800)
    c.bounds += ['all orders of sets of up to %d declarations, all orders and assignments to two files of sets of up to 4' % (5 if q else 6), 'generated orders of programs with up to 24 declarations over up to 3 files', 'recursion depth of the compiled functions at most 2, all 64-bit arguments']
    c.assumptions += ['local tags are not declared before a global tag of the same name (a documented restriction)', 'file-scope statics are only used in their own file']
