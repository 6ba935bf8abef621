"""C08: macro expansion."""
import re, subprocess, os, concurrent.futures as cf
from vlib import VERIF, Case, cstr as q
import cpp
LEVEL = 'checked'
TECHNIQUE = 'symbolic execution of the preprocessor on macro programs in which identifiers, digits and characters of arguments are solver variables; SMT comparison of the preprocessed text and of the compiled strings with the expansion C11 prescribes'
EXPLAIN = 'Each task is a set of macro definitions and invocations whose text has symbolic bytes (which macro is named, which digits and characters an argument holds). The preprocessed output of the compiler is compared byte for byte, for all values, with the expansion computed by the reference preprocessor; programs whose expansion C11 leaves open are left out by a second implementation of the algorithm.'
IDS = 'ABCD'
def check(c):
    r = c.rng; N = 350 if c.quick else 1500
    OBJ = ['O1', 'O2', 'O3', 'A', 'C']; FUN = {'F1': 1, 'F2': 2, 'F3': 3, 'B': 1, 'D': 2, 'V0': 'v', 'V1': 'pv', 'Z0': 0}
    def num(st): 
        if r.random() < 0.5: return r.choice(['1', '2', '0', '10', '1x', '0x1', '3'])
        k = r.randrange(2); return '0753102461753102461752%d' % (6 + k)
    def lit():
        a = r.choice(['', 'a', ' ', 'x  y', "it", '\\n', '\\\\', '\\"', "'", '\x80', '\x81', 'u\x80\x81', '%d\\t', '/*', '//', '#', '##', '\\x41', ', )'])
        if r.random() < 0.75: return r.choice(['"', '"', '"', 'L"', 'u8"']) + a + '"'
        return r.choice(["'a'", "'\\''", "'\"'", "'\\\\'", "'\x82'", "L'\x82'", "'\\n'", "','", "'('"])
    def gen_tokens(params, d, fnlike, va, n=None):
        o = []; n = n if n is not None else r.choice([0, 1, 2, 3, 3, 4, 5, 6, 8])
        for _ in range(n):
            k = r.random()
            if k < 0.30 and params: o.append(r.choice(params))
            elif k < 0.42: o.append(r.choice(['a', 'b', 'x', 'y1', '_']))
            elif k < 0.50: o.append(num(0))
            elif k < 0.56: o.append(lit())
            elif k < 0.66: o.append(r.choice(['+', '-', '*', ',', '<', '=', '&', '|', '>', '!', ';', '[ ]', '( )']))
            elif k < 0.76 and fnlike and params:
                o.append('#' + r.choice(['', ' ']) + r.choice(params))
            elif k < 0.86:
                pc = lambda: r.choice((params or ['a', 'b']) + ['a', 'x', '1', 'O', 'F', 'A'] ) if params or r.random() < 0.5 else r.choice(['O', 'a', 'F', '+', '<', '1'])
                ch = [pc()]
                for _ in range(r.choice([1, 1, 1, 2])): ch.append(pc() if r.random() < 0.7 else r.choice(['1', '2', '3']))
                o.append(r.choice([' ## ', '##', ' ##', '## ']).join(ch))
            elif d > 0: o.append(call(params, d - 1, va))
            else: o.append(r.choice(OBJ + list(FUN)))
        return o
    def sp(): return r.choice(['', ' ', ' ', ' ', '  ', '\t', '/**/', ' /* , ) */ '])
    al = lambda ch: ch.isalnum() or ch in '_@\'"' or ch >= '\x80'
    def glue(ts):
        o = ''
        for t in ts:
            if o and al(o[-1]) and al(t[0]): o += r.choice([' ', ' ', '  ', '/**/', '\t'])
            elif o and o[-1] in '+-*<=&|>!#/%' and t[0] in '+-*<=&|>!#/%': o += ' '
            else: o += r.choice(['', ' ', ' ', '  '])
            o += t
        return o
    def call(params, d, va, nl=False):
        if r.random() < 0.25: return r.choice(OBJ)
        f = r.choice(list(FUN) + (['\xa0', '\xa1'] if nl else [])); n = FUN.get(f)
        if n is None: n = r.choice([0, 1, 1, 2]) if True else 0
        if r.random() < 0.08: return f
        if n == 'v': n = r.choice([0, 1, 2, 3])
        elif n == 'pv': n = r.choice([2, 2, 3, 4])
        args = []
        for _ in range(n): args.append(glue(arg(params, d, va, nl)))
        ws = (lambda: r.choice(['', '', ' ', '\n', ' \n ', '// c )\n']) if nl else r.choice(['', ' ']))
        if n == 0: return f + ws() + '(' + (ws() if r.random() < 0.4 else sp()) + ')'
        return f + ws() + '(' + ','.join((ws() if r.random() < 0.3 else sp()) + a + sp() for a in args) + ')'
    def arg(params, d, va, nl):
        k = r.random()
        if k < 0.12: return []
        if k < 0.3: return [num(0)]
        if k < 0.42: return [lit()]
        if k < 0.55: return [r.choice(['a', 'b', 'x', 'O', '1', 'O1', 'F1', 'F2', 'A', 'B'] + (['\xa0', '\xa1'] if nl else []))]
        if k < 0.65: return ['(', r.choice(['a', '1', 'O1']), ',', r.choice(['b', '2', 'O2']), ')']
        if d > 0 and k < 0.85: return [call(params, d - 1, va, nl)] + ([r.choice(['+', '-', '*', 'a', '1', '(2)', '(a)'])] if r.random() < 0.4 else [])
        return gen_tokens(params, d - 1 if d else 0, False, va, r.choice([1, 2, 3]))
    def definition(n):
        if n in FUN:
            k = FUN[n]; ps = ['p', 'q', 's'][:k] if isinstance(k, int) else ['...'] if k == 'v' else ['p', '...']
            if r.random() < 0.2 and isinstance(k, int): ps = ['a', 'x', 'O1'][:k]
            use = ['__VA_ARGS__' if p == '...' else p for p in ps]
            return '%s(%s%s%s)%s' % (n, r.choice(['', ' ']), r.choice([',', ', ', ' , ']).join(ps), r.choice(['', ' ']), r.choice([' ', '  ', '\t'])) + glue(gen_tokens(use, 1, True, True))
        return n + ' ' + glue(gen_tokens([], 1, False, False, r.choice([0, 1, 1, 2, 3, 5])))
    def program():
        L = []; names = OBJ + list(FUN); r.shuffle(names); cand = []
        for n in names: cand.append(n); L.append(r.choice(['#define ', '#define ', '# define ', '  #\tdefine  ']) + definition(n))
        for _ in range(r.choice([1, 2, 3])):
            L.append(glue([call([], 2, True, True) if r.random() < 0.8 else r.choice(['a', num(0), lit(), '\xa0', '\xa1', '+']) for _ in range(r.choice([1, 2, 3, 4]))]) + ' ;')
            if r.random() < 0.3: n = r.choice(names); L.append('#undef ' + n)
            if r.random() < 0.25: n = r.choice(names); L.append('#undef %s\n#define %s' % (n, definition(n)))
        return '\n'.join(L) + '\n'
    import itertools
    def variants(p):
        ids = [x for x in '\xa0\xa1' if x in p]; o = []
        for combo in itertools.product(IDS, repeat=2):
            t = p.replace('\xa0', combo[0]).replace('\xa1', combo[1]); o.append(t)
        return o
    def pp(tool, t):
        # placeholders of symbolic characters are two-byte sequences outside of ASCII that only occur in literals
        p = subprocess.run(tool, input=t.encode('latin-1'), capture_output=True, timeout=20)
        return None if p.returncode or b'pasting' in p.stderr else p.stdout.decode('latin-1')
    CL = ['clang-18', '-E', '-P', '-std=c11', '-Wno-everything', '-']; GC = ['gcc', '-E', '-P', '-std=c11', '-w', '-']
    def sq(t): return re.sub(r'\s+', '', t)
    d = c.out + '/pp'; os.makedirs(d, exist_ok=True)
    def make(p):
        vs = variants(p); uniq = sorted(set(vs)); amb = {}
        for t in uniq:
            e = cpp.unambiguous(t)
            if e is None: return None
        # one run of each reference for all variants, separated by lines that cannot occur in the output
        names = OBJ + list(FUN); und = '\n'.join('#undef ' + n for n in names)
        whole = ('\n%s\n<~SEP~>\n' % und).join(uniq)
        a, g = pp(CL, whole), pp(GC, whole)
        if a is None or g is None: return None
        a, g = re.split(r'<~\s*SEP\s*~>', a), re.split(r'<~\s*SEP\s*~>', g)
        if len(a) != len(uniq) or len(g) != len(uniq): return None
        if any(sq(x) != sq(y) for x, y in zip(a, g)): return None
        ref = dict(zip(uniq, a)); lits = lambda t: re.findall(r'"(?:\\.|[^"\\])*"', t)
        exact = all(lits(x) == lits(y) for x, y in zip(a, g))
        if max(map(len, a)) < 25 or any(re.search(r'(?<![\w.])[A-Za-z_]\w*753102461', x) for x in a): return None # identifiers stay concrete
        return p, [ref[v] for v in vs], exact
    progs = [program() for _ in range(N * 12)]
    with cf.ThreadPoolExecutor(8) as ex: made = [m for m in ex.map(make, progs) if m][:N]
    T = ['#include "%s/harness/lib.h"\nstatic u64 undefined_symbol(const char *n) { return 0; }\n' % VERIF]
    for i, (p, refs, exact) in enumerate(made):
        T.append('static const char src_%d[] = %s; static const char *const r%d[16] = {%s};' % (i, q(p), i, ','.join(q(x) for x in refs)))
    T.append('static const struct { const char *src; u32 n; const char *const *refs; int exact; } cs[] = {%s};' % ','.join('{src_%d,sizeof src_%d-1,r%d,%d}' % (i, i, i, m[2]) for i, m in enumerate(made)))
    T.append(open(VERIF + '/harness/ep.h').read())
    c.programs += len(made); c.extra['exact_literal_spacing'] = sum(m[2] for m in made)
    c.harness('expand', '\n'.join(T), expect=('expanded',), deadline=90 if c.quick else 800)
    c.bounds += ['%d macro programs with 13 macros each (object-like, function-like with 0 to 3 parameters, variadic), bodies up to 8 items with #, ## chains, nested calls; 2 symbolic identifiers, 2 symbolic 64-bit numbers and 3 symbolic characters per program' % len(made)]
    c.assumptions += ['expansions C11 leaves open (6.10.3.4p4) and invalid pastes are excluded', "',' ## with an empty argument (an extension that removes the comma) is excluded", 'a backslash outside of literals is excluded']
