"""C22: printlike calls."""
from vlib import Case, cstr
LEVEL = 'checked'
TECHNIQUE = 'symbolic execution of the compiler and of the compiled printlike calls with symbolic arguments; SMT comparison of the format string and argument slots the callee receives with the documented expansion'
EXPLAIN = 'Generated calls with {}-, {:..}-, {name}-, %?- and C format specifiers and arguments of generated types. The callee copies the format string and its variable arguments; for all argument values they equal the expansion written out by the generator, and every argument expression was evaluated once.'
INT = {'signed char': (4, 'd', 1), 'char': (4, 'd', 1), 'unsigned char': (4, 'd', 1), 'short': (4, 'd', 2), 'unsigned short': (4, 'd', 2), 'int': (4, 'd', 4), 'unsigned': (4, 'x', 4), 'long': (4, 'd', 4), 's64': (8, 'lld', 8), 'u64': (8, 'llx', 8), '_Bool': (4, 'd', 1)}
SIG = {'signed char': '1', 'char': '1', 'unsigned char': '1', 'short': '2', 'unsigned short': '2', 'int': '4', 'unsigned': '4', 'long': '4', 's64': '8', 'u64': '8', '_Bool': '1<2,', 'double': 'd', 'float': 'f'}
PUSH = {'signed char': 'char', 'char': 'char', 'unsigned char': 'unsigned char', 'short': 'short', 'unsigned short': 'unsigned short', 'int': 'int', 'unsigned': 'unsigned int', 'long': 'int', 's64': 'long long', 'u64': 'unsigned long long', '_Bool': '_Bool', 'double': 'double', 'float': 'float'}
class Prog:
    def __init__(s, r): s.r = r; s.types = ''; s.ns = 0; s.params = []; s.exp = []; s.fmt = b''; s.pre = ''; s.fns = 0; s.post = []; s.counter = {}
    def struct(s, depth=0):
        r = s.r; s.ns += 1; n = '$s%d' % s.ns; kind = 'union' if r.random() < 0.15 else 'struct'; mem = []
        for i in range(r.choice([1, 2, 2, 3, 4])):
            k = r.random(); m = 'm%s%d' % (r.choice(['', 'x', '_']), i)
            if k < 0.2 and depth < 2: mem.append((m, s.struct(depth + 1)))
            elif k < 0.35: mem.append((m, ('a', s.scalar(), [r.choice([1, 2, 3])] * r.choice([1, 1, 2]))))
            elif k < 0.45 and kind == 'struct': w = r.choice([1, 3, 7, 8]); mem.append((m, ('b', r.choice(['int', 'unsigned', 'unsigned char']), w)))
            else: mem.append((m, s.scalar()))
        def decl(m, t):
            if t[0] == 'a': return '%s %s%s;' % (s.name(t[1]), m, ''.join('[%d]' % x for x in t[2]))
            if t[0] == 'b': return '%s %s : %d;' % (t[1], m, t[2])
            return '%s %s;' % (s.name(t), m)
        s.types += '%s %s { %s };\n' % (kind, n, ' '.join(decl(m, t) for m, t in mem)); return (kind, n, mem)
    def name(s, t): return t[1] if t[0] == 'i' else '%s %s' % (t[0], t[1]) if t[0] in ('struct', 'union') else t[1]
    def scalar(s):
        r = s.r; k = r.random()
        if k < 0.7: return ('i', r.choice(list(INT)))
        if k < 0.85: return ('f', r.choice(['double', 'float']))
        return ('p', r.choice(['int *', 'void *', 'char *', 'short **']))
    def one(s, t, e, w='', p='', ty=''): # format and argument of a scalar
        dot = '.' if p else ''
        if t[0] == 'b': t = ('i', 'int' if t[1] != 'unsigned' or t[2] < 32 else 'unsigned')
        if t[0] == 'f': s.exp.append(('d', e)); return '%%%s%s%sf' % (w, dot, p)
        if t[0] == 'p':
            s.exp.append(('8', e))
            return '%%%s%s%ss' % (w, dot, p) if 's' in ty and t[1] == 'char *' else '%p'
        sz, c, _ = INT[t[1]]; ll = 'll' if sz == 8 else ''; c = c[-1]; sg = c == 'd'
        for x in ty:
            if x == 'n': c = 'd' if sg else 'u'
            elif x in 'xudo': c = x
        s.exp.append((str(sz), e)); return {'x': '0x', 'o': '0o'}.get(c, '') + '%%%s%s%s%s%s' % (w, dot, p, ll, c)
    def leaves(s, t, e, path):
        if t[0] == 'struct': 
            for m, mt in t[2]: yield from s.leaves(mt, e + '.' + m, path + '.' + m)
        elif t[0] == 'union': yield from s.leaves(t[2][0][1], e + '.' + t[2][0][0], path + '.' + t[2][0][0])
        elif t[0] == 'a':
            for i in range(t[2][0]): yield from s.leaves(('a', t[1], t[2][1:]) if len(t[2]) > 1 else t[1], '%s[%d]' % (e, i), '%s[%d]' % (path, i))
        else: yield t, e, path
    def expand(s, t, e, w='', p='', ty='', hash=0):
        if t[0] in ('struct', 'union', 'a'):
            if t[0] == 'a': n = PUSH.get(t[1][1]); n = '%s[%d]' % (n, t[2][0])
            else: n = '%s %s' % (t[0], t[1])
            L = [('    ' if hash else '') + q + ' = ' + s.one(lt, le, w, p, ty) for lt, le, q in s.leaves(t, e, '')]
            return '(' + n + '){' + ('\n' if hash else '') + (',\n' if hash else ', ').join(L) + (',\n' if hash else '') + '}'
        return s.one(t, e, w, p, ty)
    def bools(s, t, v): return ''.join(' %s = *(unsigned char *)&%s;' % (e, e) for lt, e, q in s.leaves(t, v, '') if lt == ('i', '_Bool')) # memory holds any byte; make it a value
    def arg(s): # (type, source expression, reference expression, name or None)
        r = s.r; k = r.random(); i = len(s.params)
        if k < 0.25:
            t = s.struct(); n = 'v%d' % i; s.params.append(n); s.pre += '%s %s = *(%s *)(in + %d);%s\n' % (s.name(t), n, s.name(t), r.randrange(0, 4) * 8, s.bools(t, n))
            return t, n, n, n
        if k < 0.32:
            t = s.struct(); s.fns += 1; f = '$h%d' % s.fns; s.types += 'static int $c%d; static %s %s(unsigned char *in) { $c%d++; %s t = *(%s *)(in + 8);%s return t; }\n' % (s.fns, s.name(t), f, s.fns, s.name(t), s.name(t), s.bools(t, 't')); n = 'r%d' % s.fns
            s.pre += '%s %s = *(%s *)(in + 8);%s\n' % (s.name(t), n, s.name(t), s.bools(t, n)); s.post.append('$c%d' % s.fns); return t, f + '(in)', n, None
        if k < 0.42:
            t = s.scalar(); 
            while t[0] == 'p': t = s.scalar()
            d = [r.choice([1, 2, 3])] if True else 0; n = 'v%d' % i; s.params.append(n); s.pre += '%s %s[%d]; for (int k = 0; k < %d; k++) %s[k] = ((%s *)in)[k];\n' % (t[1], n, d[0], d[0], n, 'unsigned char' if t[1] == '_Bool' else t[1]); return ('a', t, d), n, n, n
        t = s.scalar(); n = 'v%d' % i; s.params.append(n)
        if t[0] == 'p': s.pre += '%s %s = *(%s *)(in + %d);\n' % (t[1], n, t[1] , r.randrange(6) * 8); return t, n, n, n
        s.pre += '%s %s = *(%s *)(in + %d);\n' % (t[1], n, t[1] if t[1] != '_Bool' else 'unsigned char', r.randrange(6) * 8)
        if t[0] == 'i' and r.random() < 0.3:
            T = t[1]; res = {4: 'int', 8: 's64'}[INT[T][0]]; res = {'unsigned': 'unsigned', 'u64': 'u64'}.get(T, res)
            if r.random() < 0.5: return ('i', res), n + ' + 1', '(%s)(%s + 1u)' % (res, n) if res in ('int', 'unsigned') else '(%s)(%s + 1ull)' % (res, n), None
            if T == '_Bool': return ('i', 'int'), n + ' & 1', n, None
            s.fns += 1; s.types += 'static %s $q%d;\n' % (T, s.fns); s.post.append('(int)(unsigned char)$q%d' % s.fns); g = '$q%d' % s.fns
            s.pre += '%s = 0;\n' % g; s.counter[g] = n; return ('i', T), '(%s += %s)' % (g, n) if r.random() < 0.5 else '(%s = %s)' % (g, n), n, None
        return t, n, n, n
def esc(f): return ''.join('\\n' if c == '\n' else '\\t' if c == '\t' else '\\' + c if c in '"\\' else c for c in f)
def check(c):
    r = c.rng; cases = []; N = 400 if c.quick else 700
    for ci in range(N):
        P = Prog(r); fmt = ''; exp = ''; args = []; form = r.random()
        if form < 0.2: # no format string
            for j in range(r.choice([1, 1, 2, 3])):
                t, a, e, n = P.arg(); args.append(a); exp += (' ' if j else '') + (n + ' = ' if n else '') + P.expand(t, e)
                if len(P.exp) > 22: break
            exp += '\n'; call = ', '.join(args)
        else:
            for j in range(r.choice([1, 1, 2, 3, 4])):
                lit = r.choice(['', ' ', 'a', '%%', '\n', '{ ', '}', '{', '{ x = ', ' "q" ', '\\', '{a', '{}'[0:1] + '-']); 
                fmt += lit; exp += lit
                if lit in ('{', '{a'): fmt += ' '; exp += ' '
                if len(P.exp) > 18: break
                t, a, e, n = P.arg(); comp = t[0] in ('struct', 'union', 'a'); k = r.random(); w = r.choice(['', '', '3', '12']); p = r.choice(['', '', '2', '10']); isint = t[0] == 'i'; ty = r.choice(['', 'x', 'd', 'u', 'o', 'n']) if isint or comp else r.choice(['', 's']) if t == ('p', 'char *') else ''
                if k < 0.15: fmt += '{}'; exp += P.expand(t, e); args.append(a)
                elif k < 0.3 and n: eq = r.random() < 0.5; fmt += '{%s%s}' % (n, '=' if eq else ''); exp += (n + ' = ' if eq else '') + P.expand(t, e)
                elif k < 0.4 and n: eq = r.random() < 0.5; fmt += '{%s%s:%s%s%s}' % (n, '=' if eq else '', w, '.' + p if p else '', ty); exp += (n + ' = ' if eq else '') + P.expand(t, e, w, p, ty)
                elif k < 0.5 and comp: fmt += '{:#%s%s%s}' % (w, '.' + p if p else '', ty) if r.random() < 0.5 else '{#}'; full = not fmt.endswith('{#}'); exp += P.expand(t, e, w if full else '', p if full else '', ty if full else '', 1); args.append(a)
                elif k < 0.6: fmt += '%%%s%s?' % (w, '.' + p if p else ''); exp += P.expand(t, e, w, p); args.append(a)
                elif k < 0.68 and not comp:
                    st = ('i', 'int'); v = r.choice(['7', 'k1', 'k1 * 2']); P.exp.append(('4', v)); args.append(v); q = r.random()
                    if q < 0.5: fmt += '{:*%s%s}' % ('.' + p if p else '', ty); exp += P.expand(t, e, '*', p, ty)
                    elif q < 0.75: fmt += '{:%s.*%s}' % (w, ty); exp += P.expand(t, e, w, '*', ty)
                    else: P.exp.append(('4', 'k2')); args.append('k2'); fmt += '{:*.*%s}' % ty; exp += P.expand(t, e, '*', '*', ty)
                    args.append(a)
                elif k < 0.8 and not comp:
                    if isint: cv = ('ll' if INT[t[1]][0] == 8 else r.choice(['', 'l'])) + r.choice('dixXuo'); P.exp.append((str(INT[t[1]][0]), e))
                    elif t[0] == 'f': cv = r.choice(['f', 'g', 'e', 'lf', 'G', 'a']); P.exp.append(('d', e))
                    else: cv = 's' if t[1] == 'char *' else 'p'; P.exp.append(('8', e))
                    f = '%' + r.choice(['', '-', '+', '0', ' ', '#']) + w + ('.' + p if p else '') + cv; fmt += f; exp += f; args.append(a)
                elif comp or ty or w or p: fmt += '{:%s%s%s}' % (w, '.' + p if p else '', ty); exp += P.expand(t, e, w, p, ty); args.append(a)
                else: fmt += '{}'; exp += P.expand(t, e); args.append(a)
            tail = r.choice(['', '\n', ' {', '}', '%%']); fmt += tail; exp += tail
            fm = '"' + esc(fmt) + '"'
            if r.random() < 0.2 and len(fmt) > 3 and '\\' not in fm and '%%' not in fm: h = r.randrange(2, len(fm) - 2); fm = fm[:h] + '" "' + fm[h:]
            call = ', '.join([fm] + args)
        if len(P.exp) > 30: continue
        # slots of the callee
        off = 0; rec = []; ref = []
        for i, (k, e) in enumerate(P.exp):
            T = {'4': 'int', '8': 'u64', 'd': 'double'}[k]; o = 8 * i
            rec.append('*(%s *)(out + %d) = *(%s *)($a + %d);' % (T, o, T, i)); ref.append('*(%s *)(out + %d) = (%s)(%s);' % (T, o, T, e))
        nb = 8 * len(P.exp); L = len(exp)
        head = 'typedef long long s64; typedef unsigned long long u64;\n' + P.types
        src = head + 'static char *$f_; static u64 $a[40]; static int $n; __declspec(printlike) static int $print(int before, char *format, ...) { $f_ = format; for (int i = 0; i < $n; i++) $a[i] = ((u64 *)&format)[1 + i]; return before + 1; }\n'
        pos = r.random() < 0.5; src = src.replace('int before, ', '') .replace('return before + 1', 'return 6') if pos else src
        body = '%s$n = %d; int k1 = k, k2 = k >> 3; int ret = $print(%s%s);\n' % (P.pre, len(P.exp), '' if pos else '5, ', call)
        src += 'int $f(unsigned char *in, int k, char *fo, unsigned char *out) { %s for (int i = 0; i < %d; i++) fo[i] = $f_[i]; %s return ret * 3%s; }' % (body, L + 1, ' '.join(rec), ''.join(' + %s * %d' % (x, 7 + 4 * i) for i, x in enumerate(P.post)))
        pre = P.pre
        rsrc = head.replace('__declspec(printlike)', '') + 'int $f(unsigned char *in, int k, char *fo, unsigned char *out) { %s int k1 = k, k2 = k >> 3; static const char x[] = "%s"; for (int i = 0; i < %d; i++) fo[i] = x[i]; %s return 18%s; }' % (pre, esc(exp), L + 1, ' '.join(ref), ''.join(' + %s * %d' % (RP(x, P), 7 + 4 * i) for i, x in enumerate(P.post)))
        cases.append(Case('p%d' % ci, src, [('$f', '4P240,4P%d,P%d,' % (L + 1, max(nb, 8)))], ref=rsrc))
    cases = c.valid(cases)
    c.diff('call', cases, deadline=70 if c.quick else 700)
    c.bounds += ['%d generated calls with up to 4 specifiers and 30 variable arguments; argument types: all integer types, float, double, pointers, arrays, nested structures, unions and bit-fields' % len(cases), 'all values of the arguments (240 symbolic bytes and an int)']
    c.assumptions += ['flags of {:..} other than # are ignored by the compiler and not used', 'unions print their first member, as the compiler documents only for structures; anonymous member structures are not used']
def RP(x, P): # what the counters must be
    if x.startswith('$c'): return '1'
    g = x[x.index('$q'):]
    return '(int)(unsigned char)(%s)' % P.counter[g]
