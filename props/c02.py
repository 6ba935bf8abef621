from gen import *
LEVEL = 'translation_validation'
TECHNIQUE = 'symbolic execution of the compiler (LLVM IR) and of the x86 code it emits; SMT equivalence of results and of all memory written with the C reference for all values'
EXPLAIN = 'Every conversion, unary, increment, assignment and compound assignment form is compiled by the compiler under symbolic execution; the emitted code runs with symbolic arguments and memory, and results and memory are compared with the same C text compiled by clang for all values.'
ALL = INT_T + ['_Bool']
ASG = ['+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=', '=']
BOOL_ASG = ['=', '&=', '|=', '^='] # the compiler documents that other assignments to _Bool are rejected
def asg(t): return BOOL_ASG if t == '_Bool' else ASG
def lvals(t, k):
    """(declarations and set-up from parameters, lvalue, read back)"""
    return [('%s x = p;' % t, 'x', 'x'), ('*g = p;', '*g', '*g'), ('g[2] = p; long long i = 2;', 'g[i]', 'g[2]'), ('$g%d = p;' % k, '$g%d' % k, '$g%d' % k), ('struct $S%d s; s.m = p;' % k, 's.m', 's.m'), ('struct $S%d s, *sq = &s; sq->n[1] = p; int i = 1;' % k, 'sq->n[i]', 's.n[1]'), ('$a%d[3] = p; int i = 3;' % k, '$a%d[i]' % k, '$a%d[3]' % k), ('%s *pp[2]; pp[1] = g; *pp[1] = p;' % t, '*pp[1]', '*g'), ('%s x = p; %s *e = &x;' % (t, t), '(*e)', 'x')]
def check(c):
    r = c.rng; pre = []
    for t in ALL: k = ALL.index(t); pre.append('%s $g%d; static %s $a%d[5]; struct $S%d { char c; %s m; %s n[3]; };' % (t, k, t, k, k, t, t))
    pre = '\n'.join(pre); P = lambda t: 'P%d,' % (4 * SIZE[t])
    # a _Bool reached through a pointer holds 0 or 1: booleans are only accessed through locals and globals
    def forms(t): return [f for f in lvals(t, ALL.index(t)) if t != '_Bool' or '*g' not in f[0] + f[1] and 'g[' not in f[0] and 'pp' not in f[0]]
    fns = []; n = 0
    def add(ret, args, body, sig):
        nonlocal n
        fns.append(('%s $f%d(%s){ %s }' % (ret, n, args, body), '$f%d' % n, sig)); n += 1
    for a in ALL: # conversions: cast, assignment, initialisation, argument-like return, chains of casts
        for b in ALL:
            add('long long', '%s p' % a, 'return (%s)p;' % b, '8' + CODE[a]); add(b, '%s p' % a, 'return p;', CODE[b] + CODE[a])
            add('long long', '%s p, %s q' % (a, b), 'q = p; return q;', '8' + CODE[a] + CODE[b])
            for d in r.sample(ALL, 2 if c.quick else 12): add('long long', '%s p' % a, 'return (%s)(%s)p;' % (d, b), '8' + CODE[a]); add('long long', '%s p, %s q' % (a, b), 'return (%s)(p + q);' % d, '8' + CODE[a] + CODE[b])
    for a in ALL: # unary operators on every lvalue form
        for f in forms(a):
            for o in ('-', '~', '!', '+', '!!', '- -', '-~'): add('long long', '%s p, %s *g' % (a, a), '%s return %s%s;' % (f[0], o, f[1]), '8' + CODE[a] + P(a))
            for e in ('++%s', '--%s', '%s++', '%s--'): add('long long', '%s p, %s *g' % (a, a), '%s long long r = %s; return r + %s;' % (f[0], e % (f[1] if f[1][0] != '*' else '(' + f[1] + ')'), f[2]), '8' + CODE[a] + P(a)); add('long long', '%s p, %s *g' % (a, a), '%s %s; return %s;' % (f[0], e % (f[1] if f[1][0] != '*' else '(' + f[1] + ')'), f[2]), '8' + CODE[a] + P(a))
            add('int', '%s p, %s *g' % (a, a), '%s return sizeof(%s) + 10 * sizeof(-%s) + 100 * sizeof(!%s) + 1000 * sizeof(%s++);' % (f[0], f[1], f[1], f[1], '(' + f[1] + ')'), '4' + CODE[a] + P(a))
    for a in ALL: # compound assignment for every pair of types
        for b in ALL:
            fs = forms(a)
            for o in asg(a):
                f = r.choice(fs); lim = ('<2' if b == '_Bool' else '<%d' % (64 if SIZE[promote(a)] == 8 else 32)) if o in ('<<=', '>>=') else CODE[b][1:].strip(',')
                args = '%s p, %s *g, %s q' % (a, a, b); sig = CODE[a] + P(a) + CODE[b][0] + lim + ','
                add('long long', args, '%s long long r = (%s %s q); return r * 5 + %s;' % (f[0], f[1], o, f[2]), '8' + sig)
                f = r.choice(fs); add(a, args, '%s %s %s q; return %s;' % (f[0], f[1], o, f[2]), CODE[a] + sig)
    for a in ALL: # compound assignment with constants and with expressions
        for o in asg(a):
            for txt, lt, v in r.sample(LITS, 6 if c.quick else 40):
                if o in ('<<=', '>>='): v = v % (64 if SIZE[promote(a)] == 8 else 32); txt = str(v)
                if v == 0 and o in ('/=', '%='): continue
                f = r.choice(forms(a)); add('long long', '%s p, %s *g' % (a, a), '%s return (%s %s %s) + %s;' % (f[0], f[1], o, txt, '0') , '8' + CODE[a] + P(a)); 
                f = r.choice(forms(a)); add('long long', '%s p, %s *g' % (a, a), '%s %s %s -%s; return %s;' % (f[0], f[1], o if o not in ('<<=', '>>=') else '^=', txt, f[2]), '8' + CODE[a] + P(a))
    for _ in range(400 if c.quick else 3000): # expression on the right, chained assignments, increments inside
        a, b = r.choice(ALL), r.choice(INT_T); f = r.choice(forms(a)); g = ExprGen(r, [('p', a), ('q', b)], div=False); e, t = g.gen(r.choice((1, 2, 3))); o = r.choice([x for x in asg(a) if x not in ('/=', '%=', '<<=', '>>=')])
        body = r.choice(['%s %s %s %s; return %s;' % (f[0], f[1], o, e, f[2]), '%s long long y = (%s %s %s) ^ 9; return y + %s;' % (f[0], f[1], o, e, f[2]), '%s %s z; z = %s %s %s; return z * 7 + %s;' % (f[0], b, f[1], o, e, f[2]), '%s %s z = 5; z += (%s %s z++ + %s, 3); return z + %s;' % (f[0], b, f[1], o if o != '=' else '+=', e, f[2]) if False else '%s %s z = q; %s %s z++; return z * 11 + %s;' % (f[0], b, f[1], o, f[2])])
        add('long long', '%s p, %s *g, %s q' % (a, a, b), body, '8' + CODE[a] + P(a) + CODE[b])
    # each lvalue evaluated once: a side effect in its subscript, pointer or call
    for a in INT_T:
        for o in ASG:
            lim = '<%d' % (64 if SIZE[promote(a)] == 8 else 32) if o in ('<<=', '>>=') else ''
            for lv in ('g[i++ & 3]', '*(i += 1, g + (i & 3))', 'g[--i & 3]', '*h++', '*--h', '(i++, h)[1]'):
                add('long long', '%s *g, int i, %s q' % (a, a), '%s *h = g + 1; %s %s q; return i * 100 + (h - g);' % (a, lv, o), '8' + P(a) + '4<1000,' + CODE[a] + lim)
        for e in ('g[i++ & 3]++', '++g[i-- & 3]', '(*h++)++', '--*h++', '*++h -= i++', '-g[i++ & 3]', '!*h++', '(char)g[++i & 3]'): add('long long', '%s *g, int i' % a, '%s *h = g + 1; long long r = %s; return r + i * 10 + (h - g);' % (a, e), '8' + P(a) + '4<1000')
    c.diff('conv', cases_of('conv', fns, 40, pre=pre), deadline=70 if c.quick else 800)
    c.bounds += ['all values of every integer type; every type pair for casts, assignment and every compound assignment (one or two sampled lvalue forms per pair), every unary and ++/-- operator on every lvalue form']
