"""C24: options that only affect diagnostics or debug data."""
from vlib import cstr, VERIF
import importlib
LEVEL = 'checked'
TECHNIQUE = 'symbolic execution of the compiler with symbolic command lines (letters, separators and values of options); SMT comparison of the object file with that of the plain command line'
EXPLAIN = 'The command line has symbolic bytes: the case of each letter, dashes and underscores, digits of values and characters of macro definitions. The object file without debug sections is compared with that of the plain command line, or of the source with the #define or the full include path, for all values.'
OPTS = [('Wall', '0', ''), ('Wnone', '0', ''), ('W', 'j', '##'), ('Wno', 'v', '##'), ('wd', 'j', '##'), ('W', 'v', 'type_mismatch'), ('Wno', 'v', 'Shadowing-Local'), ('warninglimit', 'v', '##'), ('errorlimit', 'v', '##'),
  ('quiet', '0', ''), ('nologo', '0', ''), ('showincludes', '0', ''), ('nodebug', '0', ''), ('threadcount', 'v', '%'), ('MP', '0', ''), ('incremental', 'v', 'no'), ('incremental', 'v', 'yes'), ('MF', 'j', 'dep.d'), ('ignore', 'v', 'this'),
  ('std', 'v', 'c99'), ('std', 'v', 'c11'), ('std', 'v', 'c17'), ('std', 'v', 'c23'), ('std', 'v', 'clatest'), ('reportwarningsinsystemincludes', '0', ''), ('link', '0', ''), ('I', 'j', '.'), ('LIBPATH', 'v', '.'), ('D', 'j', 'UNUSED_MACRO'), ('D', 'j', 'UNUSED_MACRO=##')]
DEFS = [('VAL$', '=', '12~', 0, 'int x = @; int f(void) { return @ + 1; }\n'), ('N$', '1', '', 0, 'int x = @ + 4;\n#ifndef @\n#error no\n#endif\n'), ('E$', '=', '', 0, 'int x = 4 @;\n#ifdef @\nint y;\n#endif\n'),
  ('STR$', '=', '"?~"', 0, 'const char *x = @; char y[] = @ "b";\n'), ('T', '=', 'unsigned short', 1, '@ x = -1; int s = sizeof(@);\n'), ('F(x)', '=', 'x+~', 0, 'int x = @(2) * 3;\n'), ('G(a,b)', '=', 'a##b', 0, 'int @(y,z) = 3;\n'),
  ('_$', '=', '-~', 0, 'int x = 3 @;\n'), ('H', '=', "'?'", 0, 'int x = @;\n'), ('EQ', '=', '1==1', 0, 'int x = @;\n'), ('LONG', '=', '0x~f~ull', 0, 'unsigned long long x = @;\n')]
def check(c):
    r = c.rng; q = c.quick; c23 = importlib.import_module('c23'); Gen = importlib.import_module('c14').Gen
    progs = [(n, s, 'a.c') for n, s in c23.P]; progs = [] if q else progs
    src = 'struct S { unsigned char a; int b; }; extern int ext; int g(int); static int s = 3; int v = 1.5; int f(int x) { int unused; struct S q = { x, 300 }; char c = 1000; if (x = 3) { int x = 4; s += x; } return g(q.b) + s + ext + (unsigned)-1 + -2u + 07; }\n'
    progs.append(('warn', src + '\x01b.c\nextern int v; int ext = 4; int g(int y) { static int s; return s++ * y + v; } unsigned char t[] = "abc"; int *p = &ext; int w = 2147483647 + 1; int m = 5 * 0;\n', 'a.c b.c'))
    T = ['#include "%s/harness/lib.h"\n#include "%s/harness/norm.h"\nstatic u64 undefined_symbol(const char *n) { return 0; }' % (VERIF, VERIF)]
    h = open(VERIF + '/harness/opt.h').read(); cut = h.index('static u8 g_base')
    T.append(h[:cut])
    for i, (n, s, f) in enumerate(progs): T.append('static const char t%d[] = %s;' % (i, cstr(s)))
    T.append('static const struct prog progs[] = {%s}; enum { nprogs = %d };' % (','.join('{%s,t%d,sizeof t%d-1,%s,"a.obj"}' % (cstr(n), i, i, cstr(f)) for i, (n, s, f) in enumerate(progs)), len(progs)))
    T.append('static const struct opt opts[] = {%s}; enum { nopts = %d };' % (','.join("{%s,'%s',%s}" % (cstr(n), k, cstr(v)) for n, k, v in OPTS), len(OPTS)))
    np = 3 if q else 24; T.append('enum { nplans = %d }; static const u32 plans[][nplans] = {%s};' % (np, ','.join('{%s}' % ','.join(str(r.randrange(1 << 31)) for _ in range(np)) for _ in range(len(progs) * len(OPTS)))))
    combos = []
    for i in range(20 if q else 400):
        # the -I, -D and thread options are used at most once, contradictory ones are left out
        k = r.sample([j for j in range(len(OPTS)) if OPTS[j][0] not in ('MP', 'W')], r.choice([2, 3, 4])); names = [OPTS[j][0] for j in k]
        if len(set(names)) < len(names): continue
        combos.append([r.randrange(32), r.randrange(4), len(k)] + k)
    T.append('static const u8 combos[][8] = {%s}; enum { ncombos = %d };' % (','.join('{%s}' % ','.join(map(str, k)) for k in combos), len(combos)))
    T.append('struct def { const char *name; char kind; const char *val; u32 quote; const char *src; }; static const struct def defs[] = {%s}; enum { ndefs = %d };' % (','.join("{%s,'%s',%s,%d,%s}" % (cstr(a), b, cstr(v), qq, cstr(s)) for a, b, v, qq, s in DEFS), len(DEFS)))
    T.append(h[cut:]); text = '\n'.join(T); c.programs += len(progs) + len(DEFS)
    for st in ('neutral', 'combine', 'out', 'define', 'include'): c.harness(st, text, entry=st + '_main', deadline=60 if q else 500, traces=4)
    c.bounds += ['%d options and values, alone in all spellings (/, -, --; letters in either case; a dash or underscore inside; =, : or blank before the value; quotes; three positions; %d of these spellings per option, drawn from the seed, each with symbolic letters), and %d combinations of 2 to 4 of them' % (len(OPTS), np, len(combos)), 'all two-digit values of numeric options, thread counts 1 to 8', '%d forms of /D with symbolic names, digits and characters; /I with one or two directories' % len(DEFS)]
    c.assumptions += ['/seed (which reorders declarations), /MD, /MT and /l (which change the libraries named in the object file) are not among the options that must not matter', 'debug sections are not compared']
