"""Macro expansion after Prosser's algorithm. Two variants of the one step C11 leaves open (6.10.3.4p4: a call whose name comes from a replacement list and whose arguments come from behind it) decide whether a generated program has one meaning."""
import re
TOK = re.compile(r'(?P<ws>(?:\s|/\*.*?\*/|//[^\n]*|\\\n)+)|(?P<id>[A-Za-z_]\w*)|(?P<num>\.?[0-9](?:[eEpP][+-]|[\w.@])*)|(?P<str>"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\')|(?P<p>##|\.\.\.|\+\+|--|->|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|.)', re.S)
class T:
    __slots__ = ('k', 's', 'w', 'h')
    def __init__(s, k, t, w=False, h=frozenset()): s.k, s.s, s.w, s.h = k, t, w, h
def lex(text):
    o = []; w = False
    for m in TOK.finditer(text):
        k = m.lastgroup
        if k == 'ws': w = True; continue
        o.append(T(k, m.group(), w)); w = False
    return o
class Ambiguous(Exception): pass
class Cpp:
    def __init__(s, variant): s.v, s.m, s.n = variant, {}, 0
    def define(s, line):
        m = re.match(r'(\w+)(\()?', line); name = m.group(1)
        if m.group(2):
            e = line.index(')'); ps = [p.strip() for p in line[m.end():e].split(',')] if line[m.end():e].strip() else []; s.m[name] = (ps, lex(line[e + 1:]))
        else: s.m[name] = (None, lex(line[m.end():]))
    def undef(s, n): s.m.pop(n, None)
    def expand(s, ts):
        ts = list(ts); out = []
        while ts:
            s.n += 1
            if s.n > 20000: raise Ambiguous
            t = ts.pop(0)
            if t.k != 'id' or t.s not in s.m or t.s in t.h: out.append(t); continue
            ps, body = s.m[t.s]
            if ps is None: r = s.subst(body, [], [], t.h | {t.s}); ts = r + ts; continue
            if not ts or ts[0].s != '(': out.append(t); continue
            d = 0; args = [[]]; i = 0
            for i, x in enumerate(ts):
                if x.s == '(' and x.k == 'p':
                    d += 1
                    if d == 1: continue
                if x.s == ')' and x.k == 'p':
                    d -= 1
                    if d == 0: break
                if x.s == ',' and x.k == 'p' and d == 1 and not (ps and ps[-1] == '...' and len(args) == len(ps)): args.append([]); continue
                args[-1].append(x)
            else: raise Ambiguous # unterminated
            rp = ts[i]; ts = ts[i + 1:]
            if ps and ps[-1] == '...' and len(args) == len(ps) - 1: raise Ambiguous # C11 requires the variable argument
            if not ps and args == [[]]: args = []
            if len(args) != len(ps): raise Ambiguous
            h = ((t.h & rp.h) if s.v else t.h) | {t.s}
            ts = s.subst(body, ['__VA_ARGS__' if p == '...' else p for p in ps], args, h) + ts
        return out
    def subst(s, body, ps, args, h):
        o = []; i = 0; ex = {}
        def arg(n): return args[ps.index(n)]
        while i < len(body):
            t = body[i]
            if ps and t.s == '#' and i + 1 < len(body) and body[i + 1].s in ps:
                o.append(T('str', '#' + ''.join(x.s for x in arg(body[i + 1].s)), t.w)); i += 2; continue
            if t.s == '##' and i + 1 < len(body):
                n = body[i + 1]; rhs = list(arg(n.s)) if n.s in ps else [n]
                if ps and n.s == '#' and i + 2 < len(body): rhs = [T('str', '#' + ''.join(x.s for x in arg(body[i + 2].s)))]; i += 1
                if not rhs: rhs = [T('pm', '')]
                l = o.pop() if o else T('pm', '')
                if l.s == ',' or rhs[0].s == ',': raise Ambiguous
                c = l.s + rhs[0].s; q = lex(c) if c else [T('pm', '')]
                if len(q) != 1 and not (l.k == 'pm' or rhs[0].k == 'pm'): raise Ambiguous # invalid token
                if c.startswith('//') or c.startswith('/*'): raise Ambiguous
                z = T(q[0].k, c, l.w, l.h & rhs[0].h) if len(q) == 1 else (rhs[0] if l.k == 'pm' else l)
                o.append(z); o += rhs[1:]; i += 2; continue
            if t.s in ps:
                if i + 1 < len(body) and body[i + 1].s == '##': a = arg(t.s); o += a if a else [T('pm', '')]
                else:
                    if t.s not in ex: ex[t.s] = s.expand(arg(t.s))
                    o += ex[t.s]
                i += 1; continue
            o.append(t); i += 1
        return [T(x.k, x.s, x.w, x.h | h) for x in o if x.k != 'pm']
    def run(s, text):
        out = []; lines = text.split('\n'); buf = ''
        def flush():
            nonlocal buf
            if buf.strip(): out.extend(x.s for x in s.expand(lex(buf)))
            buf = ''
        for l in lines:
            m = re.match(r'\s*#\s*(define|undef)\s+(.*)', l)
            if m:
                flush()
                s.define(m.group(2)) if m.group(1) == 'define' else s.undef(m.group(2).strip())
            else: buf += l + '\n'
        flush(); return out
def unambiguous(text):
    try:
        a = Cpp(0).run(text); b = Cpp(1).run(text)
        return a if a == b else None
    except (Ambiguous, RecursionError): return None
if __name__ == '__main__':
    import sys; print(unambiguous(open(sys.argv[1]).read()))
