"""Shared machinery of the checks: building, case files, running the executor, evidence and verdicts."""
import os, sys, json, subprocess, shutil, time, hashlib, re, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HLC_REPO', '/repo')
TARGET = ['--target=x86_64-pc-windows-msvc']
HLC_FLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-mcx16', '-gline-tables-only', '-w', '-Wno-error=implicit-function-declaration', '-fms-extensions', '-fno-strict-aliasing', '-ffast-math', '-D_Debug']
REF_FLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-fwrapv', '-ffp-contract=off', '-fno-strict-aliasing', '-fms-extensions', '-w', '-g0', '-fno-builtin', '-mno-sse3', '-std=c11', '-Wno-error', '-fcommon', '-fno-stack-protector', '-Wno-error=implicit-function-declaration', '-Wno-error=int-conversion', '-Wno-error=incompatible-pointer-types']
HARNESS_FLAGS = ['-fwritable-strings', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-builtin', '-fno-strict-aliasing', '-w', '-g0', '-fno-stack-protector', '-mno-sse3', '-fwrapv']

class CheckError(Exception): pass
def run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode: raise CheckError('command failed: %s\n%s' % (' '.join(cmd)[:400], (r.stderr or r.stdout)[-3000:]))
    return r.stdout

def ensure_engine():
    """Build the executor when it is missing or older than its sources (setup_cmd does this ahead of time)."""
    import fcntl
    os.makedirs(VERIF + '/build', exist_ok=True)
    with open(VERIF + '/build/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        run(['make', '-s', '-j8', '-C', VERIF + '/engine'])

def build_hlc(out):
    """LLVM bitcode of the compiler, from the current working tree."""
    run(['clang-18'] + TARGET + HLC_FLAGS + ['-c', '-emit-llvm', REPO + '/src/main.c', '-o', out + '/hlc0.bc'])
    run(['opt-18', '-passes=function(sroa,instsimplify,simplifycfg)', out + '/hlc0.bc', '-o', out + '/hlc.bc'])
    return out + '/hlc.bc'

def cstr(s):
    if isinstance(s, str): s = s.encode('latin-1')
    o = []; 
    for i in range(0, len(s), 2000):
        part = s[i:i + 2000]; q = []
        for b in part:
            if b == 34: q.append('\\"')
            elif b == 92: q.append('\\\\')
            elif 32 <= b < 127 and b != 63: q.append(chr(b))
            elif b == 10: q.append('\\n')
            else: q.append('\\%03o' % b)
        o.append('"' + ''.join(q) + '"')
    return '\n'.join(o) if o else '""'

def const_fn(text, name, sig, idx):
    """A function whose text uses $0$, $1$.. for symbolic constants: (source text, reference text, fn). sig: result then the real parameters; '$(' in the text starts the parameter list."""
    n = max(int(x) for x in re.findall(r'\$(\d)\$', text)) + 1; lims = {}
    src = re.sub(r'\$(\d)\$', lambda m: '0o@' + chr(48 + idx) + m.group(1) + '@' * 19 + 'ull', text).replace('$(', '(')
    ref = re.sub(r'\$(\d)\$', r'c_\1', text).replace('static ', ''); pos = ref.index('$(')
    cs = ', '.join('unsigned long long c_%d' % i for i in range(n)); void = ref[pos + 2:].lstrip().startswith('void)')
    ref = ref[:pos] + '(' + cs + (ref[pos + 2:].lstrip()[4:] if void else ', ' + ref[pos + 2:])
    return src, ref

class Case:
    """One source file given to the compiler, with the functions in it that are compared."""
    def __init__(self, name, src, fns, cmd='hlc.exe /obj /no_stdlib /quiet a.c', ref=None):
        # fns: list of (function name, signature[, budget]); '$' in the text stands for a unique prefix
        self.name = name; self.cmd = cmd; p = re.sub(r'[^A-Za-z0-9]', '_', name) + '_'
        self.src = src.replace('$', p); self.ref = (ref if ref is not None else src).replace('$', p)
        self.fns = [(f[0].replace('$', p),) + tuple(f[1:]) for f in fns]

def compile_parallel(jobs):
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(lambda c: run(c), jobs))

def build_diff(out, cases, extra='', nref=8):
    """Reference bitcode (clang) and the harness bitcode for a list of cases."""
    jobs = []; refs = []
    n = max(1, min(nref, len(cases)))
    for i in range(n):
        path = '%s/ref%d' % (out, i)
        with open(path + '.c', 'w') as f:
            for c in cases[i::n]: f.write('\n# 1 "%s"\n%s\n' % (c.name, c.ref))
        jobs.append(['clang-18'] + TARGET + REF_FLAGS + ['-c', '-emit-llvm', path + '.c', '-o', path + '_0.bc']); refs.append(path + '.bc')
    h = out + '/harness.c'
    with open(h, 'w') as f:
        f.write('%s#include "%s/harness/diff.h"\n%s\n' % (extra + '\n' if extra.startswith('#define') else '', VERIF, '' if extra.startswith('#define') else extra))
        if 'undefined_symbol' not in extra: f.write('static u64 undefined_symbol(const char *n) { return (u64)hs_func(n); }\n')
        for i, c in enumerate(cases):
            for fn in c.fns: f.write('extern char %s[];\n' % fn[0])
            f.write('static const struct fn fns%d[] = {' % i + ','.join('{"%s",%s,"%s",%s}' % (fn[0], fn[0], fn[1], fn[2] if len(fn) > 2 else 0) for fn in c.fns) + '};\n')
            f.write('static const char src%d[] = %s;\nstatic const struct casefile cs%d = {"%s",src%d,sizeof src%d - 1,%s,fns%d,%d};\n' % (i, cstr(c.src), i, c.name, i, i, cstr(c.cmd), i, len(c.fns)))
        f.write('const struct casefile *const cases[] = {%s};\nconst u32 ncases = %d;\n' % (','.join('&cs%d' % i for i in range(len(cases))), len(cases)))
    jobs.append(['clang-18'] + TARGET + HARNESS_FLAGS + ['-c', '-emit-llvm', h, '-o', out + '/harness.bc'])
    compile_parallel(jobs)
    compile_parallel([['opt-18', '-passes=function(sroa)', r[:-3] + '_0.bc', '-o', r] for r in refs])
    return refs, out + '/harness.bc'

def run_engine(out, hlc, refs, harness, entry='diff_main', deadline=300, jobs=8, task_seconds=0, max_viol=3, args=(), extra=()):
    shutil.rmtree(out + '/eng', ignore_errors=True); os.makedirs(out + '/eng')
    cmd = [VERIF + '/build/hsx', '--hlc', hlc, '--harness', harness, '--entry', entry, '--out', out + '/eng', '--root', REPO, '--deadline', str(deadline), '--jobs', str(jobs), '--max-viol', str(max_viol)]
    for r in refs: cmd += ['--mod', r]
    if task_seconds: cmd += ['--task-seconds', str(task_seconds)]
    cmd += list(extra)
    if args: cmd += ['--args'] + list(args)
    r = subprocess.run(cmd, capture_output=True, text=True, errors='replace')
    if os.environ.get("HLC_STDERR"): print(r.stderr[:3000])
    if r.returncode: raise CheckError('executor failed (%d): %s' % (r.returncode, r.stderr[-2000:]))
    res = [json.loads(l) for l in open(out + '/eng/results.jsonl')]
    return res, r.stderr, cmd
