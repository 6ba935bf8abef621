from gen import *
LEVEL = 'translation_validation'
TECHNIQUE = 'symbolic execution of the compiler (LLVM IR) and of the x86 code it emits; per function an SMT query that its result equals the C reference for all argument values'
EXPLAIN = 'The compiler is executed on each program; every emitted function is then executed with symbolic 64-bit argument registers next to the same C text compiled to IR by clang, and the results, memory effects and the calling-convention obligations are compared by the solver for all values.'
def check(c):
    r = c.rng
    # every operand type pair with every operator, operands in parameters
    fns = []
    for a in INT_T:
        for b in INT_T:
            k = '%d_%d' % (INT_T.index(a), INT_T.index(b))
            for i, o in enumerate(BIN):
                fns.append(('long long $p%s_%d(%s a, %s b){ return a %s b; }' % (k, i, a, b, o), '$p%s_%d' % (k, i), '8' + CODE[a] + CODE[b]))
            w = 64 if SIZE[promote(a)] == 8 else 32
            for i, o in enumerate(['<<', '>>']): fns.append(('long long $s%s_%d(%s a, %s b){ return a %s b; }' % (k, i, a, b, o), '$s%s_%d' % (k, i), '8' + CODE[a] + CODE[b] + '<%d' % w))
            fns.append(('int $z%s(%s a, %s b){ return sizeof(a + b) * 1000 + sizeof(a << b) * 100 + sizeof(a && b) * 10 + sizeof(a < b); }' % (k, a, b), '$z%s' % k, '4' + CODE[a] + CODE[b]))
    # result type observed by its signedness
    for a in INT_T:
        for b in INT_T:
            k = '%d_%d' % (INT_T.index(a), INT_T.index(b))
            fns.append(('int $g%s(%s a, %s b){ return ((a | b) - (a | b) - 1 < 0) * 2 + ((a << 1) * 0 - 1 < 0); }' % (k, a, b), '$g%s' % k, '4' + CODE[a] + CODE[b]))
    cases = cases_of('pair', fns, 40)
    # operand kinds: locals, globals, memory, members, array elements, constants
    fns = []; pre = []; n = 0
    for t in INT_T: pre.append('%s $g%d; static %s $h%d = 3; struct $S%d { char c; %s m; %s n[3]; };' % (t, INT_T.index(t), t, INT_T.index(t), INT_T.index(t), t, t))
    def kinds(t, i):
        k = INT_T.index(t)
        return [('', 'p%d' % i), ('%s l%d = p%d;' % (t, i, i), 'l%d' % i), ('$g%d = p%d;' % (k, i), '$g%d' % k), ('%s q%d = p%d; %s *m%d = &q%d;' % (t, i, i, t, i, i), '*m%d' % i), ('struct $S%d s%d; s%d.m = p%d;' % (k, i, i, i), 's%d.m' % i), ('struct $S%d u%d; struct $S%d *v%d = &u%d; v%d->n[2] = p%d;' % (k, i, k, i, i, i, i), 'v%d->n[2]' % i), ('%s w%d[5]; int x%d = 3; w%d[x%d] = p%d;' % (t, i, i, i, i, i), 'w%d[x%d]' % (i, i)), ('', '(%s)p%d' % (t, i)), ('', '(p%d + 0)' % i)]
    for o in BIN + ['<<', '>>']:
        for _ in range(60 if c.quick else 400):
            a, b = r.choice(INT_T), r.choice(INT_T); ka, kb = r.choice(kinds(a, 0)), r.choice(kinds(b, 1))
            if ka[1] == kb[1]: continue
            sh = '<%d' % (64 if SIZE[promote(a)] == 8 else 32) if o in ('<<', '>>') else ''
            fns.append(('long long $k%d(%s p0, %s p1){ %s %s return %s %s %s; }' % (n, a, b, ka[0], kb[0], ka[1], o, kb[1]), '$k%d' % n, '8' + CODE[a] + CODE[b] + sh)); n += 1
    # constants on either side
    for o in BIN + ['<<', '>>']:
        ls = LITS if not c.quick else r.sample(LITS, 40)
        for (txt, lt, v) in ls:
            t = r.choice(INT_T); ka = r.choice(kinds(t, 0))
            if o in ('<<', '>>'):
                w = 64 if SIZE[promote(t)] == 8 else 32
                if v < w: fns.append(('long long $k%d(%s p0){ %s return %s %s %s; }' % (n, t, ka[0], ka[1], o, txt), '$k%d' % n, '8' + CODE[t])); n += 1
                w = 64 if SIZE[lt] == 8 else 32
                fns.append(('long long $k%d(%s p0){ %s return %s %s %s; }' % (n, t, ka[0], txt, o, ka[1]), '$k%d' % n, '8' + CODE[t] + '<%d' % w)); n += 1
            else:
                if not (o in '/%' and v == 0): fns.append(('long long $k%d(%s p0){ %s return %s %s %s; }' % (n, t, ka[0], ka[1], o, txt), '$k%d' % n, '8' + CODE[t])); n += 1
                fns.append(('long long $k%d(%s p0){ %s return %s %s %s; }' % (n, t, ka[0], txt, o, ka[1]), '$k%d' % n, '8' + CODE[t])); n += 1
    cases += cases_of('kind', fns, 40, pre='\n'.join(pre))
    # nested expressions
    fns = []; n = 0
    for depth, cnt in ((2, 300), (3, 400), (4, 300), (5, 120), (6, 50), (8, 8)) if c.quick else ((2, 1500), (3, 3000), (4, 3000), (5, 2000), (6, 800), (8, 100)):
        for _ in range(cnt):
            ts = [r.choice(INT_T) for _ in range(4)]; g = ExprGen(r, [('p%d' % i, t) for i, t in enumerate(ts)], div=depth <= 4 and r.random() < 0.5)
            e, t = g.gen(depth); rt = r.choice(['long long', 'long long', t, 'int'])
            fns.append(('%s $n%d(%s){ return %s; }' % (rt, n, ', '.join('%s p%d' % (x, i) for i, x in enumerate(ts)), e), '$n%d' % n, CODE[rt] + ''.join(CODE[x] for x in ts))); n += 1
    cases += cases_of('nest', fns, 25)
    c.bounds += ['operands: all values of all integer types; shift counts below the width; divisors zero and INT_MIN/-1 excluded as undefined', 'expressions: every type pair with every operator; sampled operand kinds and literals; random nested expressions up to depth 8 over 4 parameters']
    c.diff('ops', cases, deadline=70 if c.quick else 800)
