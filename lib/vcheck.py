"""A check: stages that run the executor, confirmation of what it reports against the real compiler, evidence and verdict."""
import os, sys, json, time, random, shutil, subprocess, re, traceback
from vlib import *

LEVELS = {}
class Ctx:
    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.quick = tier == 'quick'; self.rng = random.Random('%s/%d' % (pid, seed)); self.t0 = time.time()
        self.out = '%s/build/%s' % (VERIF, pid); shutil.rmtree(self.out, ignore_errors=True); os.makedirs(self.out)
        self.tot = {}; self.reach = {}; self.undec = {}; self.errors = {}; self.x86ops = {}; self.functions = set(); self.nfunc = 0
        self.viol = []; self.samples = []; self.stages = []; self.validated = 0; self.val_obj = 0; self.val_fail = []; self.unconfirmed = []; self.assumptions = []; self.bounds = []; self.programs = 0; self.max_q = 0
        self.nat_exe = None; self.hlc = None; self.expect = []; self.explain = ''; self.skipped = 0; self.extra = {}
    # ---- building ----
    def prepare(self):
        ensure_engine(); self.hlc = build_hlc(self.out)
    def native_compiler(self):
        """The compiler as a Windows program, built as /opt/vp/build.sh does; runs under wine."""
        if self.nat_exe: return self.nat_exe
        d = self.out + '/nat'; os.makedirs(d); L = '/opt/hlc/sdk/Lib/10.0.1.0'
        run(['clang-18', '--target=x86_64-pc-windows-msvc', '-O0', '-mcx16', '-w', '-Wno-error=implicit-function-declaration', '-fms-extensions', '-fno-strict-aliasing', '-ffast-math', '-D_Debug', '-c', REPO + '/src/main.c', '-o', d + '/hlc.obj'])
        run(['lld-link-18', '/heap:0,0', '/stack:0x100000,0x100000', '/opt:ref', '/nodefaultlib', '/entry:_start', '/subsystem:console', '/out:' + d + '/hlc.exe', d + '/hlc.obj', L + '/um/x64/advapi32.lib', L + '/um/x64/kernel32.lib', L + '/ucrt/x64/ucrt.lib'])
        if os.path.isdir(REPO + '/implicit'): os.symlink(REPO + '/implicit', d + '/implicit')
        env = dict(os.environ); e = subprocess.run(['bash', '-c', '. /opt/hlc/env.sh; env -0'], capture_output=True, text=True).stdout
        for kv in e.split('\0'):
            if '=' in kv: k, v = kv.split('=', 1); env[k] = v
        env.pop('DISPLAY', None); self.nat_env = env; self.nat_exe = d + '/hlc.exe'
        return self.nat_exe
    # ---- running ----
    def valid(self, cases):
        """Drops generated programs the reference compiler rejects (they are not valid C)."""
        d = self.out + '/valid'; os.makedirs(d, exist_ok=True)
        def one(ic):
            i, c = ic; p = '%s/%d.c' % (d, i); open(p, 'w').write(c.ref); r = subprocess.run(['clang-18'] + TARGET + REF_FLAGS + ['-fno-crash-diagnostics', '-c', '-emit-llvm', p, '-o', p[:-1] + 'bc'], capture_output=True, text=True, errors='replace')
            if r.returncode and os.environ.get('HLC_VERBOSE'): print(c.name, [l for l in r.stderr.splitlines() if 'error' in l][:2], file=sys.stderr)
            return r.returncode == 0
        with cf.ThreadPoolExecutor(8) as ex: ok = list(ex.map(one, enumerate(cases)))
        self.extra['generated_programs_rejected_by_reference'] = self.extra.get('generated_programs_rejected_by_reference', 0) + ok.count(False)
        return [c for c, k in zip(cases, ok) if k]
    def diff(self, name, cases, inc='', entry='diff_main', **kw):
        if not cases: return []
        d = self.out + '/' + name; os.makedirs(d, exist_ok=True)
        refs, h = build_diff(d, cases, inc); self.programs += len(cases)
        self._sample_src = getattr(self, '_sample_src', [])
        c = self.rng.choice(cases); self._sample_src.append({'case': c.name, 'command': c.cmd, 'source': c.src[:1500]})
        return self.engine(name, refs, h, entry, **kw)
    def harness(self, name, text, refs_src=(), entry='main_', **kw):
        """A check with a harness of its own: C text, optional reference sources."""
        d = self.out + '/' + name; os.makedirs(d, exist_ok=True); jobs = []; refs = []
        open(d + '/harness.c', 'w').write(text)
        for i, r in enumerate(refs_src):
            open('%s/ref%d.c' % (d, i), 'w').write(r); p = '%s/ref%d' % (d, i)
            jobs.append(['clang-18'] + TARGET + REF_FLAGS + ['-c', '-emit-llvm', p + '.c', '-o', p + '_0.bc']); refs.append(p + '.bc')
        jobs.append(['clang-18'] + TARGET + HARNESS_FLAGS + ['-I' + VERIF + '/harness', '-c', '-emit-llvm', d + '/harness.c', '-o', d + '/harness.bc'])
        compile_parallel(jobs); compile_parallel([['opt-18', '-passes=function(sroa)', r[:-3] + '_0.bc', '-o', r] for r in refs])
        return self.engine(name, refs, d + '/harness.bc', entry, **kw)
    def engine(self, name, refs, harness, entry, deadline=None, traces=8, confirm='native', args=(), extra=(), max_viol=60, expect=('compared',), jobs=8, task_seconds=0):
        d = self.out + '/' + name; os.makedirs(d + '/w', exist_ok=True)
        if deadline is None: deadline = 60 if self.quick else 600
        ntr = traces; opts = ['--cwd', d + '/w', '--modpath', self.out + '/nat', '--solver-ms', '8000' if self.quick else '40000'] + list(extra)
        if ntr: opts += ['--traces', '1', '0']
        res, err, cmd = run_engine(d, self.hlc, refs, harness, entry, deadline=deadline, jobs=jobs, max_viol=max_viol, args=args, extra=opts, task_seconds=task_seconds)
        st = {'stage': name, 'tasks': 0, 'crashed_tasks': 0, 'skipped_tasks': 0}; reach = {}
        viol = []
        for r in res:
            if 'functions' in r: self.functions |= set(r['functions']); self.nfunc = r['functions_total']; st['wall_s'] = round(r['wall'], 2); continue
            st['tasks'] += 1
            if 'crash' in r: st['crashed_tasks'] += 1; self.errors['executor process ended (%s)' % r['crash']] = self.errors.get('executor process ended (%s)' % r['crash'], 0) + 1; continue
            if 'skipped' in r: st['skipped_tasks'] += 1; self.skipped += 1; continue
            for k, v in r.items():
                if k in ('task', 'time'): continue
                if k == 'max_q': self.max_q = max(self.max_q, v)
                elif isinstance(v, (int, float)): self.tot[k] = self.tot.get(k, 0) + v; st[k] = st.get(k, 0) + v
            for key, dst in (('reach', reach), ('undec', self.undec), ('errors', self.errors), ('x86ops', self.x86ops)):
                for k, v in r[key].items(): dst[k] = dst.get(k, 0) + v
            self.samples += [{'task': r['task'], 'note': s[:400]} for s in r['samples'][:1]] if len(self.samples) < 12 else []
            viol += [dict(v, stage=name) for v in r['viol']]
        for k, v in reach.items(): self.reach[k] = self.reach.get(k, 0) + v
        for k in list(st):
            if k in ('ir', 'x86', 'truncated', 'sat', 'unk', 'unsat', 'syntactic', 'cache_hits', 'forks', 'infeasible', 'calls'): st.pop(k)
        st['reach'] = {k: reach[k] for k in sorted(reach)[:40]}; self.stages.append(st)
        info = dict(dir=d, refs=refs, harness=harness, entry=entry, args=list(args), confirm=confirm, cmd=cmd, expect=expect)
        for v in viol: v['info'] = info
        self.viol += viol
        for e in expect:
            if not reach.get(e): self.undec['stage %s never reached "%s"' % (name, e)] = 1
        if ntr: self.validate(info, ntr)
        if os.environ.get('HLC_VERBOSE'): print(json.dumps(st), file=sys.stderr)
        return res
    # ---- the real compiler ----
    def objs(self, info):
        if 'objs' in info: return info['objs']
        o = []; jobs = []
        for b in [info['harness']] + info['refs']: jobs.append(['clang-18', '--target=x86_64-pc-windows-msvc', '-O0', '-mcx16', '-w', '-c', b, '-o', b[:-3] + '.obj']); o.append(b[:-3] + '.obj')
        compile_parallel(jobs); info['objs'] = o; return o
    def native(self, info, trace, work):
        self.native_compiler(); shutil.rmtree(work, ignore_errors=True); os.makedirs(work); o = self.objs(info)
        try: r = subprocess.run([VERIF + '/build/nat', '--trace', trace, '--entry', info['entry'], '--work', work, '--exe', self.nat_exe] + o + (['--args'] + info['args'] if info['args'] else []), capture_output=True, text=True, errors='replace', env=self.nat_env, timeout=120)
        except subprocess.TimeoutExpired: return 9, 'timeout'
        return r.returncode, r.stdout
    def validate(self, info, n):
        """Runs recorded passing paths against the real compiler and the code it emits: same assertions, same object bytes."""
        tr = sorted(f for f in os.listdir(info['dir'] + '/eng') if f.startswith('trace_')); self.rng.shuffle(tr); tr = tr[:n]
        if not tr: return
        self.native_compiler(); self.objs(info)
        def one(t):
            task = t[6:-4]; return t, self.native(info, info['dir'] + '/eng/' + t, info['dir'] + '/w/' + task)
        with cf.ThreadPoolExecutor(8) as ex:
            for t, (rc, out) in ex.map(one, tr):
                self.val_obj += out.count('OUTPUT-SAME')
                if rc == 0: self.validated += 1
                else: self.val_fail.append('%s/%s: rc %d %s' % (os.path.basename(info['dir']), t, rc, out[-200:]))
        for f in os.listdir(info['dir'] + '/eng'):
            if f.startswith('trace_') and f not in tr: os.unlink(info['dir'] + '/eng/' + f)
    def confirm(self, v):
        """A reported violation is replayed: in the executor with concrete values, then against the real compiler."""
        info = v['info']; cmd = [c for c in info['cmd']]; rd = v['dir']
        i = cmd.index('--out'); cmd[i + 1] = rd
        a = cmd.index('--args') if '--args' in cmd else len(cmd)
        try: r = subprocess.run(cmd[:a] + ['--replay', rd] + cmd[a:], capture_output=True, text=True, errors='replace', timeout=300); eng = r.returncode == 1 and 'REPRODUCED' in r.stdout
        except subprocess.TimeoutExpired: eng = False
        if not eng: return False, 'not reproduced by concrete execution'
        if info['confirm'] == 'engine': return True, 'concrete execution'
        rc, out = self.native(info, rd + '/replay.txt', rd + '/w')
        if rc == 1: return True, 'real compiler: ' + out.strip().splitlines()[-1]
        return False, 'real compiler disagrees (rc %d): %s' % (rc, out.strip()[-200:])
    # ---- verdict ----
    def known(self):
        p = VERIF + '/known_findings.json'
        return [k for k in json.load(open(p))['findings'] if k['property'] == self.id and k.get('status') == 'known'] if os.path.exists(p) else []
    def finish(self, level, technique, explain, functions_note=''):
        known = self.known(); hit = set(); fresh = []
        for v in self.viol:
            k = next((k for k in known if re.fullmatch(k['match'], v['msg'], re.S)), None)
            if k: hit.add(k['id'])
            else: fresh.append(v)
        confirmed = []; seen = set()
        for n, v in enumerate(fresh):
            if len(confirmed) >= 3 or n > 40: break
            if v['msg'] in seen: continue
            seen.add(v['msg'])
            ok, how = self.confirm(v)
            if ok: v['how'] = how; confirmed.append(v)
            else: self.unconfirmed.append({'msg': v['msg'], 'why': how, 'dir': v['dir']})
        for k in known: print('KNOWN-FINDING: property=%s %s%s' % (self.id, k['what'], '' if k['id'] in hit else ' (not reached by this run)'))
        for u in self.unconfirmed: print('UNCONFIRMED: %s (%s)' % (u['msg'], u['why']))
        rd = '%s/replays/%s' % (VERIF + '/build', self.id); shutil.rmtree(rd, ignore_errors=True)
        paths = []
        for i, v in enumerate(confirmed):
            p = '%s/%d' % (rd, i); shutil.copytree(v['dir'], p); open(p + '/README', 'w').write('%s\nconfirmed by: %s\nstage: %s\nexecutor: %s --replay %s\nnative: %s/build/nat --trace %s/replay.txt --entry %s --work <dir> --exe <hlc.exe> %s\n' % (v['msg'], v['how'], v['stage'], ' '.join(v['info']['cmd']), p, VERIF, p, v['info']['entry'], ' '.join(v['info'].get('objs', []))))
            paths.append(p)
        t = self.tot; checks = t.get('checks', 0)
        cov = {
            'states': t.get('paths', 0), 'transitions': t.get('ir', 0) + t.get('x86', 0), 'traces_validated_against_impl': self.validated,
            'samples': (getattr(self, '_sample_src', [])[:4] + self.samples[:6]) or [{'note': 'none'}],
            'programs': self.programs, 'disagreements_checked': checks,
            'compiles_executed': t.get('compiles', 0), 'calls_into_compiled_code': t.get('calls', 0), 'ir_instructions': t.get('ir', 0), 'x86_instructions': t.get('x86', 0),
            'assertions': checks, 'assertions_decided_by_rewriting': t.get('checks_trivial', 0) + t.get('syntactic', 0), 'assertions_decided_by_solver': t.get('checks_solver', 0),
            'solver_queries': t.get('queries', 0), 'solver_sat': t.get('sat', 0), 'solver_unsat': t.get('unsat', 0), 'solver_unknown': t.get('unk', 0), 'solver_seconds': round(t.get('solver_s', 0), 3), 'longest_query_s': self.max_q,
            'forks': t.get('forks', 0), 'infeasible_paths': t.get('infeasible', 0), 'truncated_paths': t.get('truncated', 0), 'tasks_skipped': self.skipped,
            'object_files_equal_to_real_compiler': self.val_obj, 'validation_failures': self.val_fail[:10],
            'undecided': dict(sorted(self.undec.items())[:30]), 'executor_errors': dict(sorted(self.errors.items(), key=lambda x: -x[1])[:30]), 'unconfirmed': self.unconfirmed[:10],
            'compiler_functions_encoded': len(self.functions), 'compiler_functions_total': self.nfunc, 'functions': sorted(f[4:] if f.startswith('hlc:') else f for f in self.functions), 'x86_opcodes_executed': len(self.x86ops), 'bounds': self.bounds, 'stages': self.stages, 'reach': {k: self.reach[k] for k in sorted(self.reach)[:60]}, 'explanation': explain, 'technique': technique,
            'known_findings_hit': sorted(hit)}
        cov.update(self.extra)
        ev = {'property': self.id, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(confirmed)}
        os.makedirs(VERIF + '/evidence', exist_ok=True); json.dump(ev, open('%s/evidence/%s.json' % (VERIF, self.id), 'w'), indent=1)
        print('%s %s: %d programs, %d paths, %d assertions (%d by solver), %d queries, %.1f s solver, %d traces validated, %d undecided, %d errors, %.1f s' % (self.id, self.tier, self.programs, cov['states'], checks, cov['assertions_decided_by_solver'], cov['solver_queries'], cov['solver_seconds'], self.validated, sum(self.undec.values()), sum(self.errors.values()), time.time() - self.t0))
        for k, n in sorted(self.errors.items(), key=lambda x: -x[1])[:8]: print('  error x%d: %s' % (n, k))
        for k, n in sorted(self.undec.items(), key=lambda x: -x[1])[:8]: print('  undecided x%d: %s' % (n, k))
        for f in self.val_fail[:5]: print('  trace not validated: ' + f)
        for v, p in zip(confirmed, paths): print('  %s [%s]' % (v['msg'], v['how'])); print('VIOLATION property=%s replay=%s' % (self.id, p))
        return 1 if confirmed else 0
