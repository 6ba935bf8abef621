"""C07: conditional inclusion."""
from vlib import Case
LEVEL = 'checked'
TECHNIQUE = 'symbolic execution of the preprocessor and compiler on directives whose operands are solver variables; SMT comparison of the groups that were compiled with a reference evaluation of the conditions'
EXPLAIN = 'Each task is a source file with nested conditional directives; integer constants in the conditions are solver variables spelled in the source text. The compiler processes the file symbolically; which groups were kept is read from the result of the emitted function and compared, for all values, with the conditions evaluated by the C11 rules.'
PRE = r'''
typedef long long S; typedef unsigned long long U;
static int ub;
static S sadd(S a, S b) { U r = (U)a + (U)b; ub |= (S)((a ^ r) & (b ^ r)) < 0; return r; }
static S ssub(S a, S b) { U r = (U)a - (U)b; ub |= (S)((a ^ b) & (a ^ r)) < 0; return r; }
static S smul(S a, S b) { ub |= ((U)a + 0x80000000u) >> 32 != 0 | ((U)b + 0x80000000u) >> 32 != 0; return (U)a * (U)b; }
static S sdiv_(S a, S b) { return a / b; }
static S smod_(S a, S b) { return a % b; }
static U udiv_(U a, U b) { return a / b; }
static U umod_(U a, U b) { return a % b; }
static S sneg(S a) { ub |= a == (S)(1ull << 63); return -(U)a; }
static S sshl(S a, S b) { U r = (U)a << (b & 63); ub |= a < 0 | (S)r < 0 | r >> (b & 63) != a; return r; }
'''
PREC = {'*': 3, '/': 3, '%': 3, '+': 4, '-': 4, '<<': 5, '>>': 5, '<': 6, '>': 6, '<=': 6, '>=': 6, '==': 7, '!=': 7, '&': 8, '^': 9, '|': 10, '&&': 11, '||': 12}
CHARS = [("'a'", 'S', 97), ("'\\n'", 'S', 10), ("'\\0'", 'S', 0), ("'\\x41'", 'S', 65), ("'\\177'", 'S', 127), ("'\\377'", 'S', -1), ("'\\''", 'S', 39), ("'\"'", 'S', 34), ("'\\\\'", 'S', 92), ("'('", 'S', 40), ("L'a'", 'U', 97), ("L'\\x1234'", 'U', 0x1234), ("u'\\xffff'", 'U', 0xffff), ("U'\\x12345678'", 'U', 0x12345678), ("U'\\U00010203'", 'U', 0x10203), ("L'\\u20ac'", 'U', 0x20ac)]
LITS = ['0', '1', '2', '3', '7', '8', '10', '63', '64', '100', '255', '0x7fffffff', '0x80000000', '2147483648', '4294967295', '0xffffffff', '0x100000000', '0x7fffffffffffffff', '9223372036854775807', '0x8000000000000000', '0xffffffffffffffff', '1u', '0u', '5U', '1ull', '3ll', '7L', '0b101', '0777', '017u', '18446744073709551615u', '0xfedcba9876543210', '00', '0x0', "1'000", '0xABCull']
KW = ['NOPE', 'undefined_thing', 'true', 'false', '_x9', 'intx']
class G:
    def __init__(s, r, fi): s.r, s.fi, s.nc, s.types = r, fi, 0, []
    def const(s):
        r = s.r
        if s.nc and (s.nc >= 3 or r.random() < 0.3): i = r.randrange(s.nc)
        else: i = s.nc; s.nc += 1; s.types.append(None)
        # one spelling of a constant decides its type: keep it
        if s.types[i] is None: s.types[i] = r.choice(['', '', '', 'u', 'U', 'ull', 'll', 'ul', 'lu', 'L', 'llu', 'LLU'])
        x = s.types[i]; t = 'U' if 'u' in x.lower() else 'S'
        return ['0@%d%d' % (s.fi, i) + '@' * 19 + x if r.random() < 0.5 else '0o@%d%d' % (s.fi, i) + '@' * 19 + x], '(%s)c_%d' % (t, i), t, 1
    def leaf(s):
        r = s.r; k = r.random()
        if k < 0.5: return s.const()
        if k < 0.7:
            x = r.choice(LITS); v = x.replace("'", '').lower().rstrip('ul')
            n = int(v, 16) if v.startswith('0x') else int(v, 2) if v.startswith('0b') else int(v, 8) if v.startswith('0') and len(v) > 1 else int(v)
            t = 'U' if 'u' in x.lower() or n >= 1 << 63 else 'S'
            return [x], '(%s)%dull' % (t, n), t, 1
        if k < 0.8: x, t, v = r.choice(CHARS); return [x], '(%s)(%d)' % (t, v), t, 1
        if k < 0.92:
            n = r.randrange(8); d = {0: 1, 1: 1, 2: 0, 3: 0, 4: 1, 5: 0, 6: 'X6_def', 7: 'X7_def'}[n]; nm = 'D%d' % n if n < 6 else 'X%d' % n
            f = r.choice(['defined %s', 'defined(%s)', 'defined ( %s )', 'defined(%s )', 'defined\t%s', 'defined/**/%s']) % nm
            return [f], '(S)(%s)' % d, 'S', 1
        if k < 0.96: return [r.choice(KW)], '(S)0', 'S', 1
        n = r.choice([6, 7]); return ['X%d' % n], '(S)(X%d_def ? X%d_val : 0)' % (n, n), 'S', 1
    def par(s, e, p): # parenthesise when needed (or sometimes anyway)
        t, ref, ty, q = e
        if q > p or s.r.random() < 0.1: return ['('] + t + [')']
        return t
    def gen(s, d):
        r = s.r
        if d <= 0 or r.random() < 0.05: return s.leaf()
        k = r.random()
        if k < 0.18:
            o = r.choice('-~!+!'); e = s.gen(d - 1); t = e[2]
            if o == '!': return [o] + s.par(e, 2), '(S)!(%s)' % e[1], 'S', 2
            ref = '(%s)(%s(%s))' % (t, o, e[1]) if o != '-' or t == 'U' else 'sneg(%s)' % e[1]
            return [o] + s.par(e, 2), ref, t, 2
        if k < 0.30:
            c, a, b = s.gen(d - 1), s.gen(d - 1), s.gen(d - 1); t = 'U' if 'U' in (a[2], b[2]) else 'S'
            if r.random() < 0.3: # division by zero in the operand that is not evaluated
                z = ([r.choice(['1', '7u']), r.choice('/%'), '0'], '(S)0', 'S', 3)
                if r.random() < 0.5: c = (['0'], '0', 'S', 1); a = z; t = b[2]; 
                else: c = (['1'], '1', 'S', 1); b = z; t = a[2]
                if 'u' in z[0][0]: t = 'U'
            return s.par(c, 12) + ['?'] + s.par(a, 13) + [':'] + s.par(b, 13), '(%s)((%s) ? (%s)(%s) : (%s)(%s))' % (t, c[1], t, a[1], t, b[1]), t, 13
        if k < 0.42:
            o = r.choice(['<<', '>>']); a, b = s.gen(d - 1), s.gen(d - 2); u = b[2]
            if r.random() < 0.5: n = r.choice([0, 1, 2, 31, 32, 33, 63, r.randrange(64)]); sx = r.choice(['', '', 'u']); bt, br = ['%d%s' % (n, sx)], str(n)
            else: bt = ['('] + s.par(b, 8) + ['&', '63', ')']; br = '((%s) & 63)' % b[1]
            ref = '(%s)((%s) %s %s)' % (a[2], a[1], o, br) if o == '>>' or a[2] == 'U' else 'sshl(%s, %s)' % (a[1], br)
            return s.par(a, 5) + [o] + bt, ref, a[2], 5
        if k < 0.52:
            o = r.choice('/%'); a, b = s.gen(d - 1), s.gen(d - 2); t = 'U' if 'U' in (a[2], b[2]) else 'S'
            if r.random() < 0.6: b = ([r.choice(['3', '7', '10', '16', '255'])],) * 1; n = b[0][0]; b = ([n], '(S)' + n, 'S', 1); t = a[2]
            return s.par(a, 3) + [o] + s.par(b, 2), '%s%s_(%s, %s)' % (t.lower(), {'/': 'div', '%': 'mod'}[o], a[1], b[1]), t, 3
        if k < 0.62:
            o = r.choice(['&&', '||']); a, b = s.gen(d - 1), s.gen(d - 1)
            if r.random() < 0.3: # division by zero that is not evaluated
                a = (['0'] if o == '&&' else ['2'], '0' if o == '&&' else '2', 'S', 1); b = ([r.choice(['1', '7u']), r.choice('/%'), r.choice(['0', 'NOPE', '(1-1)'])], '0', 'S', 3)
            return s.par(a, PREC[o]) + [o] + s.par(b, PREC[o] - 1), '(S)((%s) %s (%s))' % (a[1], o, b[1]), 'S', PREC[o]
        o = r.choice(['+', '-', '*', '&', '|', '^', '<', '>', '<=', '>=', '==', '!=', '<', '>', '==', '+', '-']); a, b = s.gen(d - 1), s.gen(d - 1 if r.random() < 0.7 else d - 2); t = 'U' if 'U' in (a[2], b[2]) else 'S'; p = PREC[o]
        A, B = '(%s)(%s)' % (t, a[1]), '(%s)(%s)' % (t, b[1])
        if o in '+-*' and t == 'S': ref = '%s(%s, %s)' % ({'+': 'sadd', '-': 'ssub', '*': 'smul'}[o], A, B)
        elif p in (6, 7): ref, t = '(S)(%s %s %s)' % (A, o, B), 'S'
        else: ref = '(%s)(%s %s %s)' % (t, A, o, B)
        return s.par(a, p) + [o] + s.par(b, p - 1), ref, t, p
def join(r, toks):
    o = ''
    for t in toks:
        if o and (o[-1].isalnum() or o[-1] in '_@') and (t[0].isalnum() or t[0] in '_@\'') or o and o[-1] in '+-&|<>=!/*%' and t[0] in '+-&|<>=*/': o += ' '
        elif r.random() < 0.35: o += r.choice([' ', ' ', '  ', '\t', ' ' if o[-1:] == '/' else '/* x */', ' \\\n'])
        o += t
    return o
def balanced(t):
    d = q = 0
    for x in t:
        d += {'(': 1, ')': -1}.get(x, 0)
        if d < 0: return False
    return d == 0
def macros(r, toks, defs, uid):
    """Moves ranges of the tokens into macros; expansion gives back the same tokens."""
    toks = list(toks); calls = False
    for n in range(r.choice([0, 0, 1, 1, 2, 3])):
        i = r.randrange(len(toks)); j = min(len(toks), i + r.randrange(1, 7)); part = toks[i:j]
        if any('defined' in t or t[0] == 'X' for t in part) or calls and (not balanced(part) or ',' in part): continue
        nm = 'M%d_%d' % (uid, len(defs))
        if r.random() < 0.5: defs.append('#define %s %s' % (nm, join(r, part).replace('\\\n', ''))); toks[i:j] = [nm]
        else:
            a = r.randrange(len(part)); b = r.randrange(a, len(part)) + 1; arg = part[a:b]
            if not balanced(arg) or any(t in (',',) for t in arg): continue
            body = part[:a] + ['P'] + part[b:]; defs.append('#define %s(P%s) %s' % (nm, r.choice(['', ', Q', ' , R ']), join(r, body).replace('\\\n', '')))
            two = ',' in defs[-1].split(')')[0]; calls = True; toks[i:j] = [nm, '('] + arg + ([',', *r.choice([['0'], [], ['1', '/', '0'], ['(', '2', ',', '3', ')']])] if two else []) + [')']
    return toks
def check(c):
    r = c.rng; cases = []; N = 350 if c.quick else 1500; uid = [0]
    GARBAGE = ['#error never', '#include <no/such/file.h>', '#if (', '#elif', '#endif', '#if 1/0\n#else\n#endif', '#ifdef\n#endif', '#if\n#elif\n#endif', '#ifndef 1\n#if 0\n#elif\n#else\n#endif\n#endif', '#pragma whatever(', '#define X6 1', '#undef D0', '#define D0(', '/* #endif */', '// #else', '"#endif"', '@ ` \\ x', '#nosuchdirective x', '# 12 "x"', 'int f(', '}}}}', '#ifndef X\n#elif 1/0\n#elif )\n#else x\n#endif', '#define A(x) \\\n#else', '#line x', 'x ## y', '#warning never']
    GARBAGE = [g for g in GARBAGE if g not in ('#if (', '#elif', '#endif')]
    def dr(w): return r.choice(['#', '#', '#', ' #', '# ', '#\t', '/* c */ #', '  #  ', '# /* d */ ']) + w
    for ci in range(N):
        g = None; fi = 0; defs = []
        uid[0] += 1; g = G(r, 0); out = []; ref = []; st = [0]
        def stmt(ind):
            st[0] += 1; k = r.random()
            if k < 0.7: out.append('r = r * 3 + %d;' % st[0]); ref.append('r = r * 3 + %d;' % st[0])
            elif k < 0.85:
                n = r.choice([6, 7]); v = r.choice([0, 1, 2, 5]); out.append('#undef X%d\n#define X%d %d' % (n, n, v)); ref.append('X%d_def = 1; X%d_val = %d;' % (n, n, v))
            else: n = r.choice([6, 7]); out.append(dr('undef X%d' % n)); ref.append('X%d_def = 0;' % n)
        def cond(kind):
            k = r.random()
            if kind == 'if' and k < 0.2:
                n = r.randrange(8); d = {0: 1, 1: 1, 2: 0, 3: 0, 4: 1, 5: 0, 6: 'X6_def', 7: 'X7_def'}[n]; nm = 'D%d' % n if n < 6 else 'X%d' % n; neg = r.random() < 0.5
                return dr(('ifndef ' if neg else 'ifdef ') + nm), ('!(%s)' if neg else '%s') % d
            e = g.gen(r.choice([1, 2, 2, 3, 3, 4]))
            if r.random() < 0.35 and e[2] == 'S': o = r.choice(['<', '>=', '>']); e = (g.par(e, 6) + [o, '0'], '(S)((%s) %s 0)' % (e[1], o), 'S', 6)
            elif r.random() < 0.3:
                b = g.const(); t = 'U' if 'U' in (e[2], b[2]) else 'S'; e = (g.par(e, 7) + ['=='] + b[0], '((%s)(%s) == (%s)(%s))' % (t, e[1], t, b[1]), 'S', 7)
            elif r.random() < 0.4:
                n = r.choice(['-1', '~0', '0-1']); o = r.choice(['<', '>']); ref1 = '(%s)-1' % e[2]; e = (g.par(e, 6) + [o] + ([n[0], n[1:]] if n[0] in '-~' else ['(', '0', '-', '1', ')']), '((%s) %s %s)' % (e[1], o, ref1), 'S', 6)
            return dr(kind) + r.choice([' ', ' ', '(', '\t']) .replace('(', ' ') + join(r, macros(r, e[0], defs, uid[0])) + r.choice(['', '', ' ', ' // c', ' /* #endif */']), e[1]
        def group(d):
            for _ in range(r.choice([1, 1, 2])):
                if d > 0 and r.random() < 0.5: chain(d - 1)
                else: stmt(0)
        def chain(d):
            k = r.random(); els = r.choice([0, 0, 1, 1, 2]) if d else r.choice([0, 1, 1])
            if k < 0.15: # constant conditions around text that must not matter
                t = r.choice(['0', '1 - 1', '!1', '0u', '-1 > 1u && 0', '!defined D0', 'defined D2'])
                out.append(dr('if ' + t)); out.extend(r.sample(GARBAGE, r.choice([1, 2, 3])))
                if r.random() < 0.5: a, b = cond('elif'); out.append(a); ref.append('if (%s) {' % b); group(d); ref.append('}'); 
                elif r.random() < 0.7: out.append(dr('else')); group(d)
                out.append(dr('endif'))
                return
            if k < 0.3:
                out.append(dr('if ' + r.choice(['1', '-1', '!0', '0x100000000', 'defined(D0)', '1 ? 1 : 1/0']))); group(d)
                for _ in range(r.choice([0, 1, 2])): out.append(dr(r.choice(['elif 1/0', 'elif (', 'elif 1', 'elif 0', 'elif defined', 'elif', 'elif )', 'elif x y z']))); out.extend(r.sample(GARBAGE, r.choice([0, 1, 2])))
                if r.random() < 0.6: out.append(dr('else')); out.extend(r.sample(GARBAGE, r.choice([1, 2])))
                out.append(dr('endif')); return
            a, b = cond('if'); out.append(a); ref.append('if (%s) {' % b); group(d); ref.append('}'); op = 0
            for _ in range(els): a, b = cond('elif'); out.append(a); ref.append('else { if (%s) {' % b); group(d); ref.append('}'); op += 1
            if r.random() < 0.6: out.append(dr('else') + r.choice(['', ' // x', ' /* y */'])); ref.append('else {'); group(d); ref.append('}')
            ref.append('}' * op); out.append(dr('endif') + r.choice(['', ' // #if', ' /* z */']))
        chain(2 if r.random() < 0.4 else 1)
        if r.random() < 0.3: stmt(0)
        if not g.nc: g.const()
        src = '#define D0\n#define D1 0\n#define D4(x) x\n#define D3 1\n#undef D3\n#define X7 3\n' + '\n'.join(defs) + '\nint $f(void){ int r = 0;\n' + '\n'.join(out) + '\nreturn r; }\n'
        rf = '#ifndef PRE7\n#define PRE7\n' + PRE + '#endif\nint $f(' + ', '.join('U c_%d' % i for i in range(g.nc)) + '){ int r = 0, X6_def = 0, X6_val = 0, X7_def = 1, X7_val = 3; ub = 0;\n' + '\n'.join(ref) + '\nreturn r / !ub; }\n'
        sig = '4' + ''.join('C<9223372036854775808,' if 'u' not in t.lower() else 'C' for t in g.types)
        cases.append(Case('if%d' % ci, src, [('$f', sig)], ref=rf))
    cases = c.valid(cases)
    c.diff('if', cases, entry='const_main', deadline=90 if c.quick else 800, max_viol=40)
    c.bounds += ['%d generated files: conditionals nested up to 3 deep, up to 3 symbolic 64-bit constants per file, expressions up to depth 4 over all operators' % len(cases), 'the operands of / and % are such that no overflow and no division by zero is evaluated (undefined in C); shift counts below 64']
    c.assumptions += ['signed overflow in a condition is excluded', 'an unmatched quote in a skipped group (undefined in C11) is excluded', 'directives are ended by a newline; #elifdef and __has_include are not covered']
