"""C23: layout of the source text."""
from vlib import cstr, VERIF
import re
LEVEL = 'checked'
TECHNIQUE = 'symbolic execution of the compiler on programs whose white space and comments have symbolic bytes; SMT comparison of the object file with that of the unchanged program'
EXPLAIN = 'At each gap between two tokens the engine puts white space, comments and line splices with symbolic bytes, and compares the bytes of the object file with those of the unchanged program, for all values of the bytes.'
TOK = re.compile(r'''[ \t]+|(?P<str>(?:L|u8|u|U)?"(?:\\.|[^"\\\n])*"|(?:L|u|U)?'(?:\\.|[^'\\\n])*')|(?P<id>[A-Za-z_$]\w*)|(?P<num>\.?\d(?:[eE][+-]|[\w.])*)|(?P<op><<=|>>=|\.\.\.|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|%=|&=|\^=|\|=|\#\#|.)''')
P = [('plain', r'''typedef unsigned long long u64;
struct S { int a; unsigned b : 3, c : 4; struct S *next; };
static const char text[] = "one" "two\n" "";
double half = 0.5e+1;
u64 table[] = { 0x10ull, 077, 1'0 ? 2 : 3, 'a', [6] = 4 };
int f(int x, ...) { int y = x+++x; y <<= 2; y -= -x; if (y >= 3 && x != 4 || !y) return y--; else y = x ? text[1] : (int)half; for (int i = 0; i < 3; i++) { y ^= i - -1; } return y & ~x; }
u64 g(struct S *s) { do { s = s->next; } while (s && s->a > 5); switch (s->b) { case 1: return 3; default: return table[2] % 7; } }
'''.replace("1'0", '10')), ('macros', r'''#define EMPTY
#define CAT(a, b) a ## b
#define STR(x) #x
#define MAX(a,b) ((a)>(b)?(a):(b))
#  define VAR(f, ...) f(__VA_ARGS__)
#if defined(CAT) && !defined FOO || 0 / 1
int CAT(va, lue) = MAX(3, 1 + 2);
#elif 1
# error not here
#else
int wrong;
#endif
#ifdef FOO
#error "neither"
#endif
#undef EMPTY
#ifndef EMPTY
const char *s = STR( a + b ) "x";
#define EMPTY int
#endif
EMPTY h(EMPTY a, int b) { return VAR(MAX, a, b) + CAT(0x, 1F) + CAT(va,lue); }
#pragma comment(lib, "x")
int MAX = 4;
#if 0
skipped text
#endif
'''), ('misc', r'''#pragma once
#pragma pack(push, 1)
struct P { char c; int i; };
#pragma pack(pop)
#define TWO(x, y, ...) ((x) << (y)) + 0 __VA_ARGS__
#define CALL(...) __VA_ARGS__
typedef int (*Fn)(int, struct P *);
int k(int x, struct P *p) { goto end; end: return x * p->i + sizeof(struct P) + _Alignof(int); }
int w(int n, ...) { struct P q = { .i = n , .c = '\'' }; Fn fs[2] = { k, &k }; unsigned short *z = u"ab" u"c"; int *m = (int[3]){ 1, 2, [2] = -n }; q.i %= 7; q.i ^= z[0]; n = n > 0 ? m[2] : TWO(3, 2, + 1 * 2 - 2); while (n --> 0) { if (n & 1) continue; n |= 4; n /= 2; n >>= 1; n *= 3; break; } return fs[n != 2](n, &q) + CALL(k)(1, &q) + 0b101 + 0o17; }
float fl[] = { 1.5f, .25, 0x1.8p1, 3. }; _Static_assert(sizeof(fl) == 16, "size");
enum E { A = 'x', B, C = A | B << 1 } e = C; long long big = 0xffffffffffffffffll; char tab[] = "tab\tq\"uote\\";
#if 1 &&(2 > 1)
unsigned char bytes[] = { 'a', '\n', '\x41', '\101', '"' , '\'' };
#elif 0
#endif
''')]
def pieces(src, ctx):
    out = []; lines = src.split('\n'); 
    if lines[-1] == '': lines.pop()
    for ln in lines:
        d = ln.lstrip().startswith('#'); toks = []; pos = 0; sp = False
        for m in TOK.finditer(ln):
            if m.group(0).isspace(): 
                if toks: toks[-1][1] = True
                continue
            toks.append([m.group(0), False, m.lastgroup])
        raw = d and re.match(r'\s*#\s*(error|pragma|line)', ln) or re.match(r'skipped', ln)
        defn = re.match(r'\s*#\s*define\s+(\w+)\(', ln); 
        for i, (t, spc, kind) in enumerate(toks):
            last = i == len(toks) - 1
            if last: g = 'n' if d else ' '
            elif raw and i >= 1: g = '!' if not spc else 'D'
            elif d: g = 'D' if spc else 'd'
            else: g = ' ' if spc else '.'
            if defn and t == defn.group(1) and not spc: g = '!'
            if raw and last: g = 'n' if d else 'n'
            # splices inside of tokens
            cut = []
            if len(t) > 1 and not raw:
                if kind == 'str':
                    ok = [m.end() for m in re.finditer(r'\\x[0-9a-fA-F]+|\\[0-7]{1,3}|\\.|.', t)]; q0 = min(t.find(ch) for ch in '"\'' if ch in t); cut = [x for x in ok if q0 < x < len(t)]
            prev = 0
            for x in cut[:6]: out.append((t[prev:x], 's')); prev = x
            out.append((t[prev:], g))
        if not toks: out.append(('', 'n'))
    # the last token of a line that is no directive but is followed by one needs the newline
    res = []; idx = 0
    for ln, nxt in zip(lines, lines[1:] + ['']): pass
    return out
def build(src):
    """Pieces of all lines; a line that precedes or is a directive ends with a newline."""
    lines = src.split('\n')
    if lines[-1] == '': lines.pop()
    out = []
    for i, ln in enumerate(lines):
        p = pieces(ln + '\n', None)
        t, g = p[-1]; skipped = re.match('skipped', ln)
        p[-1] = (t, 'n' if not skipped else '!'); out += p
        if skipped: out.append(('\n', '!'))
    return out
def ranges(src):
    lines = src.split('\n'); 
    if lines[-1] == '': lines.pop()
    r = []
    for a in range(len(lines)):
        d = 0
        for b in range(a, len(lines)):
            x = lines[b].strip()
            if re.match(r'#\s*if', x): d += 1
            if re.match(r'#\s*endif', x): d -= 1
            if re.match(r'#\s*el', x) and d == 0: break
            if d < 0: break
            if d == 0: r.append((a, b + 1))
    return r
def check(c):
    progs = list(P); r = c.rng; q = c.quick
    T = ['#include "%s/harness/lib.h"\n#include "%s/harness/norm.h"\nstatic u64 undefined_symbol(const char *n) { return 0; }\nstruct piece; struct layout;' % (VERIF, VERIF)]
    body = []; lays = []
    for i, (name, src) in enumerate(progs):
        ps = build(src); rg = [x for x in ranges(src) if x[1] < 255]; rg = r.sample(rg, min(len(rg), 24 if q else 120))
        body.append('static const struct piece p%d[] = {%s};' % (i, ','.join("{%s,'%s'}" % (cstr(t), g) for t, g in ps)))
        body.append('static const u8 r%d[][2] = {%s};' % (i, ','.join('{%d,%d}' % x for x in rg)))
        lays.append('{%s,p%d,%d,"hlc.exe /obj /no_stdlib /quiet /no_debug a.c",0,0,r%d,%d,0,0}' % (cstr(name), i, len(ps), i, len(rg)))
    h = open(VERIF + '/harness/lay.h').read(); cut = h.index('static u8 g_text')
    T += [h[:cut], '\n'.join(body), 'static const struct layout layouts[] = {%s}; enum { nlayouts = %d };' % (','.join(lays), len(lays)), h[cut:]]
    c.programs += len(progs)
    c.harness('whole', '\n'.join(T), entry='whole_main', deadline=100 if q else 800)
    c.harness('gaps', '\n'.join(T), entry='gaps_main', args=['8', str(c.seed)] if q else ['1', '0'], deadline=100 if q else 800)
    c.bounds += ['%d programs that use most kinds of tokens and directives; %s' % (len(progs), 'every 8th gap between tokens, another one for each seed' if q else 'every gap between tokens'), 'white space: up to 2 symbolic bytes; comments: 2 symbolic bytes (any but NUL), over one or two lines; splices between tokens and in literals; every gap filled alike; CR LF; byte order mark; no final newline; /P output compiled; up to %d line ranges moved to an included file' % (24 if q else 120)]
    c.assumptions += ['line splices inside identifiers, numbers, operators and escape sequences are excluded (the compiler treats a splice as white space)', 'no splice between the name of a function-like macro and its parameters', '.debug$S (line numbers and the checksum of the source) is not compared']
