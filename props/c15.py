"""C15: threads and schedules."""
from vlib import Case, VERIF
import importlib
LEVEL = 'checked'
TECHNIQUE = 'symbolic execution of the multi-threaded compiler with the schedule as an explored choice: preemptions at every atomic, volatile or conflicting memory access, SMT comparison of the compiled functions with the reference for all arguments'
EXPLAIN = 'The engine runs the threads of the compiler and forks at points where preempting the running thread can matter (atomic operations, volatile accesses, and instructions seen to access memory that another thread accessed with at least one write); after every schedule the exit code is checked and the compiled functions are compared with the reference for all arguments.'
def check(c):
    r = c.rng; q = c.quick; Gen = importlib.import_module('c14').Gen; cs = []; inv = []
    def sig(fs): return [(f, '88<1>1,8', 20000000) for f in fs]
    bad = ['int $bad%d(int x){ return x + $undeclared; }', '$Unknown $bad%d;', 'struct $nowhere $bad%d;', 'int $bad%d = "text";', 'int $bad%d(int x){ return x } ', 'int $bad%d[-1];', 'unsigned char $bad%d(struct $never x){ return x.m; }', '_Static_assert(%d < 0, "no");', 'typedef struct $cyc%d { struct $cyc%d x; } $cyc;', 'int $bad%d; long long $bad%d;']
    for i in range(22 if q else 48):
        nf = [1, 2, 3, 2][i % 4]; g = Gen(r, nf); p, ref = g.program(r.choice([4, 5, 6, 8])); r.shuffle(p); names = ['a.c', 'b.c', 'c.c'][:nf]
        parts = [[] for _ in names]
        for x in p: parts[r.randrange(nf)].append(x)
        # prototypes in every file, as a header would have them; several users of one type
        protos = ['unsigned long long %s(unsigned long long n, unsigned long long x);' % f for f in g.fnames] + ['extern int $shared;']
        many = ['typedef unsigned short $Late;'] + ['$Late $user%d($Late x){ return x + %d; }' % (k, k) for k in range(3)]
        for y in parts:
            if r.random() < 0.7: y[:0] = protos
            if not y: y.append('extern int $shared;')
        if i % 3 == 0:
            for x in r.sample(many, len(many)): parts[r.randrange(nf)].append(x)
            ref = many[0] + '\n' + ref + '\n' + '\n'.join(many[1:]) + '\n'
        fs = sig(g.fnames); ok = True
        if i % 5 == 4: # an invalid program is rejected under every schedule
            b = r.choice(bad); b = b.replace('%d', str(i)); y = r.choice(parts); y.insert(r.randrange(len(y) + 1), b); ok = False
        src = '\n'.join(parts[0]) + ''.join('\x01%s\n%s' % (names[k], '\n'.join(parts[k])) for k in range(1, nf))
        k = Case('prog%d' % i, src, fs if ok else [], ref=ref if ok else '', cmd='hlc.exe /obj /no_stdlib /quiet ' + ' '.join(names)); (cs if ok else inv).append(k)
    cs = c.valid(cs) + inv; c.extra['programs'] = len(cs)
    c.diff('schedules', cs, '#include "%s/harness/sched.h"' % VERIF, entry='sched_main', confirm='engine', traces=0, args=['6', '1', str(c.seed % 7), '1'] if q else ['12', '1', str(c.seed % 7), '4'], expect=('compiled', 'compared', 'rejected'), deadline=100 if q else 420)
    if not q: c.diff('schedules2', cs[:12], '#include "%s/harness/sched.h"' % VERIF, entry='sched_main', confirm='engine', traces=0, args=['12', '2', str(c.seed % 7), '1'], expect=('compiled', 'compared', 'rejected'), deadline=380)
    c.bounds += ['%d generated programs of up to 8 declarations in up to 3 files, compiled by 2 or 3 threads' % len(cs), 'at most %d forced preemption(s) per schedule on top of 6 round-robin time slices (800 to 400000 instructions), taken before each atomic or volatile access and before each instruction seen to access data shared with a write, at most %d occurrence(s) of each instruction per partition' % (1 if q else 2, 1 if q else 4), 'sequentially consistent memory; all 64-bit arguments of the compiled functions, recursion depth at most 1']
    c.assumptions += ['a compile that takes more than 150 million steps hangs']
