"""Generators of C programs shared by the differential checks. '$' in names is made unique per case."""
INT_T = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long']
CODE = {'_Bool': '1<2,', 'char': '1', 'signed char': '1', 'unsigned char': '1', 'short': '2', 'unsigned short': '2', 'int': '4', 'unsigned': '4', 'long': '4', 'unsigned long': '4', 'long long': '8', 'unsigned long long': '8', 'float': 'f', 'double': 'd'}
SIZE = {'_Bool': 1, 'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned': 4, 'long': 4, 'unsigned long': 4, 'long long': 8, 'unsigned long long': 8, 'float': 4, 'double': 8}
def unsigned(t): return t.startswith('unsigned') or t == '_Bool'
BIN = ['+', '-', '*', '/', '%', '&', '|', '^', '<', '>', '<=', '>=', '==', '!=', '&&', '||']
REL = ['<', '>', '<=', '>=', '==', '!=']
def rank(t): return {1: 1, 2: 2, 4: 3, 8: 5}[SIZE[t]] + (1 if t in ('long', 'unsigned long') else 0)
def promote(t): return 'int' if SIZE[t] < 4 else t
def usual(a, b):
    a, b = promote(a), promote(b)
    if a == b: return a
    if unsigned(a) == unsigned(b): return a if rank(a) >= rank(b) else b
    u, s = (a, b) if unsigned(a) else (b, a)
    if rank(u) >= rank(s): return u
    if SIZE[s] > SIZE[u]: return s
    return 'unsigned long' if s == 'long' else 'unsigned long long'
# literals that are interesting to an instruction selector, with their C type
def literals():
    r = []
    for v in (0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 31, 32, 33, 63, 64, 100, 126, 127): r.append((str(v), 'int', v))
    for v in (128, 129, 255, 256, 257, 1000, 4095, 4096, 32767, 32768, 65535, 65536, 0x7ffffffe, 0x7fffffff): r.append((str(v), 'int', v))
    for v in (0x80, 0xff, 0xffff, 0x12345678, 0x7fffffff): r.append((hex(v), 'int', v))
    for v in (0x80000000, 0xffffffff, 0xfffffffe, 0x89abcdef): r.append((hex(v), 'unsigned', v)); r.append((str(v), 'long long', v)); r.append(('%du' % v, 'unsigned', v))
    for v in (1, 127, 128, 255, 65535, 0x7fffffff): r.append(('%du' % v, 'unsigned', v)); r.append(('%dll' % v, 'long long', v)); r.append(('%dull' % v, 'unsigned long long', v)); r.append(('%dl' % v, 'long', v)); r.append(('%dul' % v, 'unsigned long', v))
    for v in (0x100000000, 0x7fffffffffffffff, 0x123456789abcdef0, 0x80000001): r.append((str(v), 'long long', v))
    for v in (0x8000000000000000, 0xffffffffffffffff, 0xfedcba9876543210): r.append((hex(v), 'unsigned long long', v)); r.append(('%dull' % v, 'unsigned long long', v))
    return r
LITS = literals()
class ExprGen:
    """Random well-typed integer expressions over a set of (text, type) leaves; division and shifts stay inside what C defines."""
    def __init__(self, rng, leaves, lits=0.25, div=True, cast=True, cond=True, comma=False, logic=True, shift=True, sizeof=False):
        self.r, self.leaves, self.plit, self.div, self.cast, self.cond, self.comma, self.logic, self.shift, self.sz = rng, leaves, lits, div, cast, cond, comma, logic, shift, sizeof
    def leaf(self):
        if self.leaves and self.r.random() > self.plit: return self.r.choice(self.leaves)
        t, ty, v = self.r.choice(LITS); return (t, ty)
    def gen(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.08: return self.leaf()
        k = r.random()
        if k < 0.10:
            e, t = self.gen(d - 1); o = r.choice(['-', '~', '!', '+']); return ('(%s%s)' % (o, self.par(e)), 'int' if o == '!' else promote(t))
        if k < 0.20 and self.cast:
            e, t = self.gen(d - 1); n = r.choice(INT_T + ['_Bool']); return ('((%s)%s)' % (n, self.par(e)), n)
        if k < 0.27 and self.cond:
            c, _ = self.gen(d - 1); a, ta = self.gen(d - 1); b, tb = self.gen(d - 1); return ('(%s ? %s : %s)' % (c, a, b), usual(ta, tb))
        if k < 0.29 and self.comma:
            a, _ = self.gen(d - 1); b, t = self.gen(d - 1); return ('(%s, %s)' % (a, b), t)
        if k < 0.37 and self.shift:
            a, t = self.gen(d - 1); b, tb = self.gen(d - 2); w = 63 if SIZE[promote(t)] == 8 else 31
            o = r.choice(['<<', '>>']); return ('(%s %s (%s & %d))' % (a, o, b, w), promote(t)) if r.random() < 0.6 else ('(%s %s %d)' % (a, o, r.randrange(w + 1)), promote(t))
        if k < 0.44 and self.div:
            a, ta = self.gen(d - 1)
            if r.random() < 0.5: b, tb = self.gen(d - 2); b = '(%s | 1)' % b; tb = usual(tb, 'int')
            else:
                while 1:
                    b, tb, v = r.choice(LITS)
                    if v: break
            return ('(%s %s %s)' % (a, r.choice('/%'), b), usual(ta, tb))
        ops = ['+', '-', '*', '&', '|', '^', '+', '-'] + REL + (['&&', '||'] if self.logic else [])
        o = r.choice(ops); a, ta = self.gen(d - 1); b, tb = self.gen(d - 1 if r.random() < 0.7 else d - 2)
        return ('(%s %s %s)' % (a, o, b), 'int' if o in REL or o in ('&&', '||') else usual(ta, tb))
    def par(self, e): return e if e[0] == '(' else '(%s)' % e
def chunks(l, n): return [l[i:i + n] for i in range(0, len(l), n)]
def cases_of(prefix, fns, n, pre='', **kw):
    """fns: list of (text with function $name, name, sig); several functions per file."""
    from vlib import Case
    out = []
    for i, c in enumerate(chunks(fns, n)): out.append(Case('%s%d' % (prefix, i), pre + '\n' + '\n'.join(f[0] for f in c) + '\n', [(f[1],) + tuple(f[2:]) for f in c], **kw))
    return out
