"""C17: constraint violations."""
from vlib import cstr, VERIF
import bad, re
LEVEL = 'checked'
TECHNIQUE = 'symbolic execution of the compiler on programs with one violated constraint whose identifiers, digits and operands are solver variables; SMT decision that the program is rejected exactly if the constraint is violated, with the error at the right line and no output'
EXPLAIN = 'For each constraint the engine executes the compiler on a program that violates it and on its repaired twin, in several surroundings. Digits and identifier letters are symbolic; where they decide whether the program is valid, the verdict of the compiler has to agree with the condition on every path.'
# forms in which a syntactically broken expression stays broken
PLAIN = re.compile(r"^(int|\(int\)|return|if|\{1\}|sizeof|!|1\)|1 : 2|1 \? 2|==1|1==|1 /|\(1|g\(,1\)|ai\[\]|ai\[1|gs\.|gs\.~|gci gci|1 2|\"a\" 1|`|\\|1 \$\$\$\$ 1|'\$|\"\$|''|&&gci)$")
def check(c):
    r = c.rng; q = c.quick; T = ['#include "%s/harness/lib.h"\nstatic u64 undefined_symbol(const char *n) { return 0; }\nstatic const char prelude[] = %s;' % (VERIF, cstr(bad.PRE))]
    h = open(VERIF + '/harness/bad.h').read(); cut = h.index('static u8 g_txt'); T.append(h[:cut]); rows = []; k = 4 if q else 24
    for lv, b, g in bad.BAD:
        if g is None: continue
        plain = lv == 'e' and PLAIN.match(b); n = 1 if plain else k
        ctx = [0 if lv == 'p' and i == 0 else r.randrange(200) for i in range(n)]
        # include guards and unbalanced conditionals do not survive some surroundings
        if b in ('#include <ok.h', '#include "ok.h', '#include <no$.h>', '#include 1', '/* ', '#if 1', '#ifdef x', '#if', '#if 0\n#if 1\n#endif') or 'pragma once' in g: ctx = [4 * r.randrange(5) + (r.choice([0, 3]) if False else 0) for _ in ctx]
        rows.append("{'%s',{%s,%s},0,%d,{%s}}" % (lv, cstr(b), cstr(g), n, ','.join(map(str, ctx))))
    for i, (lv, s, cond) in enumerate(bad.IFF):
        T.append('static int cond%d(const u32 *d, const u32 *l) { return %s; }' % (i, cond))
        rows.append("{'%s',{%s,0},cond%d,%d,{%s}}" % (lv, cstr(s), i, min(k, 2 if q else 8), ','.join(str(r.randrange(200)) for _ in range(min(k, 2 if q else 8)))))
    if c.quick: pass
    T.append('static const struct bad bads[] = {%s}; enum { nbads = %d, nletters = %d };' % (',\n'.join(rows), len(rows), 7 if q else 10)); T.append(h[cut:]); c.programs += len(rows) * k
    c.harness('bad', '\n'.join(T), entry='bad_main', deadline=100 if q else 800, traces=10, expect=('accepted', 'rejected'))
    c.bounds += ['%d violations with their repaired twins and %d constructs whose validity depends on symbolic digits or letters; each in %d of 120 surroundings drawn from the seed (file, header or second file; global scope, nested blocks, loops and switches, unused static functions; 30 uses of an expression)' % (len([b for b in bad.BAD if b[2] is not None]), len(bad.IFF), k), 'one violation per program', 'identifiers with one symbolic letter, up to 3 symbolic digits']
    c.assumptions += ['constraints the compiler does not enforce by design (local redeclarations are warnings, duplicate _Generic associations, conversions between pointer types and integers) are not among the violations']
