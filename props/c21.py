"""C21: inline assembly and intrinsics."""
from vlib import Case, REPO
import re
LEVEL = 'translation_validation'
TECHNIQUE = 'symbolic execution of the emitted instructions with symbolic registers, memory, displacements and immediates; SMT equality of every register and memory byte with the instruction as assembled by LLVM and with C definitions of the intrinsics'
EXPLAIN = 'each scalar intrinsic of implicit/include/intrinsic.c is called with symbolic arguments and memory, directly and inside expressions with live values around it; the emitted code is executed symbolically and its result and every written byte must equal the C definition of the intrinsic (compiled by clang) for all arguments within the stated ranges'
# ---- scalar intrinsics: their definitions in C ----
T = {8: '__int8', 16: '__int16', 32: '__int32', 64: '__int64'}; CT = {8: 'signed char', 16: 'short', 32: 'int', 64: 'long long'}
SUF = {8: '8', 16: '16', 32: '', 64: '64'}; CO = {8: '1', 16: '2', 32: '4', 64: '8'}
def scalar():
    """(name, result, parameters, definition, signature of the parameters) for each intrinsic; P<n>: pointer to n bytes"""
    o = []
    def f(name, ret, par, body, sig): o.append((name, ret, par, body, sig))
    for w, s in ((32, ''), (64, '64')):
        t = CT[w]; u = 'unsigned ' + t
        for n, op in (('', ''), ('andcomplement', 'p[i >> %d] ^= m;'), ('andreset', 'p[i >> %d] &= ~m;'), ('andset', 'p[i >> %d] |= m;')):
            k = 5 if w == 32 else 6
            f('_bittest%s%s' % (n, s), 'unsigned char', '%s *p, %s i' % (t, t), '%s m = (%s)1 << (i & %d); unsigned char r = (p[i >> %d] & m) != 0; %s return r;' % (u, u, w - 1, k, op % k if op else ''), 'P32,%s<256,' % CO[w])
        f('_BitScanForward' + s, 'unsigned char', 'unsigned *o, %s v' % u, 'if (v) { unsigned n = 0; while (!(v >> n & 1)) n++; *o = n; } return v != 0;', 'P4,%s<%d>1,' % (CO[w], 2**w - 1)) # the index is undefined for zero
        f('_BitScanReverse' + s, 'unsigned char', 'unsigned *o, %s v' % u, 'if (v) { unsigned n = %d; while (!(v >> n & 1)) n--; *o = n; } return v != 0;' % (w - 1), 'P4,%s<%d>1,' % (CO[w], 2**w - 1))
    for w in (8, 16, 32, 64):
        t = CT[w]; P = 'P%d,' % (w // 8); c = CO[w]; s = SUF[w]
        f('_InterlockedIncrement' + s, t, t + ' *p', 'return *p = (%s)((unsigned long long)*p + 1);' % t, P)
        f('_InterlockedDecrement' + s, t, t + ' *p', 'return *p = (%s)((unsigned long long)*p - 1);' % t, P)
        f('_InterlockedCompareExchange' + s, t, '%s *p, %s x, %s c' % (t, t, t), '%s r = *p; if (r == c) *p = x; return r;' % t, P + c + c)
        f('_InterlockedExchange' + s, t, '%s *p, %s x' % (t, t), '%s r = *p; *p = x; return r;' % t, P + c)
        f('_InterlockedExchangeAdd' + s, t, '%s *p, %s x' % (t, t), '%s r = *p; *p = (%s)((unsigned long long)r + x); return r;' % (t, t), P + c)
        for n, op in (('Or', '|'), ('Xor', '^'), ('And', '&')): f('_Interlocked%s%s' % (n, s), t, '%s *p, %s x' % (t, t), '%s r = *p; *p %s= x; return r;' % (t, op), P + c)
        u = 'unsigned ' + {8: 'char'}.get(w, t); n = {8: 'b', 16: 'w', 32: 'd', 64: 'q'}[w]; z = w // 8
        f('__stos' + n, 'void', '%s *p, %s v, unsigned long long n' % (u, u), 'for (unsigned long long i = 0; i < n; i++) p[i] = v;', 'P%d,%s8<4,' % (4 * z, c))
        f('__movs' + n, 'void', '%s *p, %s *q, unsigned long long n' % (u, u), 'for (unsigned long long i = 0; i < n; i++) p[i] = q[i];', 'P%d,P%d,8<4,' % (4 * z, 4 * z))
        f('_addcarry_u%d' % w, 'unsigned char', 'unsigned char k, %s a, %s b, %s *o' % (u, u, u), '%s s = (%s)(a + b), t = (%s)(s + (k != 0)); *o = t; return (s < a) | (t < s);' % (u, u, u), '1%s%s%s' % (c, c, P))
        f('__iso_volatile_load%d' % w, t, 'const %s *p' % t, 'return *p;', P); f('__iso_volatile_store%d' % w, 'void', '%s *p, %s v' % (t, t), '*p = v;', P + c)
    f('_InterlockedCompareExchange128', 'unsigned char', 'long long *p, long long h, long long l, long long *c', 'if (p[0] == c[0] && p[1] == c[1]) { p[0] = l; p[1] = h; return 1; } c[0] = p[0]; c[1] = p[1]; return 0;', 'P16,88P16,')
    f('_InterlockedCompareExchangePointer', 'void *', 'void **p, void *x, void *c', 'void *r = *p; if (r == c) *p = x; return r;', 'P8,88'); f('_InterlockedExchangePointer', 'void *', 'void **p, void *x', 'void *r = *p; *p = x; return r;', 'P8,8')
    for w, s in ((16, '16'), (32, ''), (64, '64')):
        u = 'unsigned ' + CT[w]
        f('__popcnt' + s, u, u + ' v', 'int n = 0; for (int i = 0; i < %d; i++) n += (int)(v >> i & 1); return n;' % w, CO[w])
        f('__lzcnt' + s, u, u + ' v', 'int n = 0; for (int i = %d; i >= 0 && !(v >> i & 1); i--) n++; return n;' % (w - 1), CO[w])
    for w in (32, 64): f('_lzcnt_u%d' % w, 'unsigned ' + CT[w], 'unsigned %s v' % CT[w], 'int n = 0; for (int i = %d; i >= 0 && !(v >> i & 1); i--) n++; return n;' % (w - 1), CO[w])
    f('_umul128', 'unsigned long long', 'unsigned long long a, unsigned long long b, unsigned long long *h', 'unsigned __int128 r = (unsigned __int128)a * b; *h = r >> 64; return r;', '88P8,')
    f('_mul128', 'long long', 'long long a, long long b, long long *h', '__int128 r = (__int128)a * b; *h = r >> 64; return r;', '88P8,')
    f('_byteswap_ushort', 'unsigned short', 'unsigned short v', 'return (unsigned short)(v << 8 | v >> 8);', '2'); f('_byteswap_ulong', 'unsigned', 'unsigned v', 'return v << 24 | v >> 24 | (v & 0xff00) << 8 | (v >> 8 & 0xff00);', '4')
    f('_byteswap_uint64', 'unsigned long long', 'unsigned long long v', 'unsigned long long r = 0; for (int i = 0; i < 8; i++) r |= (v >> 8 * i & 255) << (56 - 8 * i); return r;', '8')
    f('__builtin_ctz', 'int', 'unsigned v', 'int n = 0; while (!(v >> n & 1)) n++; return n;', '4<%d>1,' % (2**32 - 1)); f('__builtin_clz', 'int', 'unsigned v', 'int n = 31; while (!(v >> n & 1)) n--; return 31 - n;', '4<%d>1,' % (2**32 - 1))
    f('__builtin_ffs', 'int', 'int v', 'if (!v) return 0; int n = 0; while (!((unsigned)v >> n & 1)) n++; return n + 1;', '4'); f('__builtin_ffsll', 'int', 'long long v', 'if (!v) return 0; int n = 0; while (!((unsigned long long)v >> n & 1)) n++; return n + 1;', '8')
    f('__builtin_expect', 'int', 'int v, int x', 'return v;', '44')
    return o
RC = {'void': 'v', 'signed char': '1', 'unsigned char': '1', 'short': '2', 'unsigned short': '2', 'int': '4', 'unsigned': '4', 'unsigned int': '4', 'long long': '8', 'unsigned long long': '8', 'void *': '8'}
def intrinsic_cases(c, text):
    r = c.rng; cases = []; fns = []
    defs = {n: '%s ref%s(%s){ %s }' % (ret, n, par, body) for n, ret, par, body, sig in scalar()}
    for n, ret, par, body, sig in scalar():
        if not re.search(r'\b%s\s*\(' % n, text): c.extra.setdefault('intrinsics_not_present', []).append(n); continue
        pn = [re.search(r'(\w+)$', p).group(1) for p in par.split(',')]; ps = [p.strip() for p in par.split(',')]; V = ret != 'void'; code = RC[ret]; undef0 = n.startswith(('__builtin_c', '_BitScan'))
        def add(sg, t): fns.append((n, t, sg))
        add(code + sig, '%s $f(%s){ %s%s(%s); }' % (ret, par, 'return ' if V else '', n, ', '.join(pn)))
        loc = ' '.join('%s z%s = %s;' % (re.sub(r'\s*\w+$', '', p) if '*' not in p else p[:p.rindex('*') + 1], q, q) for p, q in zip(ps, pn)) # through locals, as operands of an expression with values live around it
        if V and ret != 'void *': add('8' + sig + '88', 'long long $f(%s, long long e1, long long e2){ %s long long qx = e1 * 3 + (e2 ^ %s(%s)) - e1; return qx * 5 + e2; }' % (par, loc, n, ', '.join('z' + q for q in pn)))
        else: add('8' + sig + '88', 'long long $f(%s, long long e1, long long e2){ %s long long qx = e1 * 3; %s(%s); return qx - e2; }' % (par, loc, n, ', '.join('z' + q for q in pn)))
        ea = ['%s + (int)(e & 0)' % q if '*' in p else '(%s)(%s + e * 0)' % (re.sub(r'\s*\w+$', '', p), q) for p, q in zip(ps, pn)]
        if not undef0 and ret != 'void *' and 'void' not in par: add(code + sig + '4', '%s $f(%s, int e){ %s%s(%s); }' % (ret, par, 'return ' if V else '', n, ', '.join(ea)))
        if V and ret != 'void *': # the call as an argument, a condition and twice in one expression
            a = ', '.join(pn)
            add('8' + sig, 'static long long g$f(long long a, long long b){ return a * 7 - b; } long long $f(%s){ long long t = g$f(%s(%s), 5); return t + g$f(11, %s(%s)); }' % (par, n, a, n, a))
            add('4' + sig, 'int $f(%s){ int qk = 0; if (%s(%s)) qk = 1; qk += %s(%s) ? 2 : 4; return qk; }' % (par, n, a, n, a))
    for n, w in (('_BitScanForward', 32), ('_BitScanReverse', 32), ('_BitScanForward64', 64), ('_BitScanReverse64', 64)): fns.append((n, 'unsigned char $f(unsigned %s v){ unsigned o; return %s(&o, v); }' % (CT[w], n), '1' + CO[w]))
    for i in range(0, len(fns), 6):
        chunk = fns[i:i + 6]; body = ''; names = []
        for j, (n, t, sg) in enumerate(chunk): body += t.replace('$f', '$x%d' % j) + '\n'; names.append(('$x%d' % j, sg))
        used = sorted({n for n, _, _ in chunk}); ref = body
        for n in used: ref = re.sub(r'\b%s\(' % n, 'ref%s_(' % n, ref)
        pre = '\n'.join('static ' + defs[n].replace('ref' + n + '(', 'ref%s_(' % n) for n in used)
        cs = Case('in%d' % (i // 6), '#include "intrinsic.c"\n' + body, names, ref='#undef REFS\n' + re.sub(r'ref(\w+)_\(', r'$ref\1(', pre + '\n' + ref)); cs.src += '\1intrinsic.c\n' + text; cases.append(cs)
    return cases
def check(c):
    text = open(REPO + '/implicit/include/intrinsic.c', encoding='latin-1').read().replace('\r', '')
    cases = intrinsic_cases(c, text)
    c.diff('intrinsics', cases, deadline=50 if c.quick else 400)
    c.bounds += ['scalar intrinsics of implicit/include/intrinsic.c with every argument and memory operand symbolic; bit indices below 256, at most 3 elements for __stos/__movs']
