"""Plants bugs: python3 lib/seed.py SPEC.py [ids...] [--check]; SPEC: seeds = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo (C file whose _start returns 0) or demo_sh, files, args)].
Each is tried in scratch copies of /repo and /verif: the change builds, the stable tests pass, the demonstration fails with it and passes without; then seeded/<id> is written and the check of its property is run against it."""
import sys, os, subprocess, json, runpy, shutil, concurrent.futures, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Compiles demo.c with the compiler under test, runs it, and expects exit code 0.
D=$(cd "$(dirname "$0")" && pwd); H=$PWD/_build/bin/hlc.exe; T=$(mktemp -d /tmp/demo.XXXXXX); trap 'cd /; find "$T" -delete' EXIT
. /opt/hlc/env.sh; cd "$T"; cp "$D"/*.c .
timeout 60 wine "$H" /no_stdlib /quiet %s || exit 1
timeout 60 wine ./demo.exe
exit $?
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)
def one(s):
    i = s['id']; out = []; d = '%s/seeded/%s' % (V, i); T = tempfile.mkdtemp(prefix='seed_' + i, dir='/tmp'); R = T + '/repo'; keep = os.path.exists(d)
    try:
        sh('git -C /repo worktree prune'); sh('git clone -q /repo %s && cp -a /repo/_build %s/' % (R, R)); os.makedirs(T + '/d')
        loc = lambda t: t.replace('/repo', R).replace('/opt/vp/build.sh', T + '/build.sh').replace('/opt/vp/run_tests.py', T + '/run_tests.py').replace('/opt/hlc/env.sh', T + '/env.sh')
        for n in ('build.sh', 'test.sh', 'run_tests.py'): open('%s/%s' % (T, n), 'w').write(loc(open('/opt/vp/' + n).read()))
        open(T + '/env.sh', 'w').write(open('/opt/hlc/env.sh').read().replace('/opt/hlc/prefix', '/tmp/wp') if os.path.isdir('/tmp/wp') else open('/opt/hlc/env.sh').read())
        if keep: shutil.copytree(d, T + '/d', dirs_exist_ok=True); a = sh('git -C %s apply %s/patch.diff' % (R, d)); assert a.returncode == 0, a.stderr
        else:
            if 'demo' in s: open(T + '/d/demo.c', 'w').write(s['demo'])
            for n, t in s.get('files', {}).items(): open(T + '/d/' + n, 'w').write(t)
            open(T + '/d/demo.sh', 'w').write(s.get('demo_sh', DEMO % s.get('args', 'demo.c'))); os.chmod(T + '/d/demo.sh', 0o755)
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(T + '/d/meta.json', 'w'), indent=1)
            for f, a, b in s['edits']:
                p = R + '/' + f; t = open(p, newline='', encoding='latin-1').read(); nl = '\r\n' if '\r\n' in t else '\n'; a = a.replace('\n', nl); b = b.replace('\n', nl)
                if t.count(a) != 1: return '%s EDIT FAILED %d %s' % (i, t.count(a), a[:100])
                open(p, 'w', newline='', encoding='latin-1').write(t.replace(a, b))
            open(T + '/d/patch.diff', 'wb').write(subprocess.run('git -C %s diff' % R, shell=True, capture_output=True).stdout)
            open(T + '/d/demo_.sh', 'w').write(loc(open(T + '/d/demo.sh').read())); r = sh('cd /repo && bash %s/d/demo_.sh' % T); out.append('demo without: %d %s' % (r.returncode, (r.stdout + r.stderr)[-150:])); ok = r.returncode == 0
            r = sh('bash %s/build.sh' % T)
            if r.returncode: return i + ' DOES NOT BUILD ' + r.stderr[-300:]
            r = sh('cd %s && bash %s/d/demo_.sh' % (R, T)); os.remove(T + '/d/demo_.sh'); out.append('demo with: %d %s' % (r.returncode, (r.stdout + r.stderr)[-150:])); ok = ok and r.returncode
            if ok:
                sh('cd /tmp && bash %s/test.sh %s/t.json' % (T, T)); base = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); lost = sorted(base - set(json.load(open(T + '/t.json'))['passed'])); ok = not lost; out.append('tests lost: %d %s' % (len(lost), lost[:4]))
            if not ok: return i + ' REJECTED ' + '; '.join(out)
            shutil.copytree(T + '/d', d); out.append('kept')
        if '--check' in sys.argv:
            sh('cp -a %s %s/verif && find %s/verif/seeded -delete' % (V, T, T)); P = s['prop']
            r = sh('cd %s/verif && ./check %s --tier quick' % (T, P), env=dict(os.environ, HLC_REPO=R, VERIF_SEED='1', VERIF_TIER='quick')); c = r.returncode == 1 and 'VIOLATION property=%s ' % P in r.stdout
            out.append('%s (%s %d) %s' % ('CAUGHT' if c else 'MISSED', P, r.returncode, ' | '.join(l[:160] for l in r.stdout.splitlines()[1 if c else -1:][:1])))
        return i + ' ' + '; '.join(out)
    except Exception as e: return i + ' EXCEPTION ' + repr(e)
    finally: shutil.rmtree(T, ignore_errors=True)
if sys.argv[1] == '--recheck':
    only = [a for a in sys.argv[2:] if a[0] != '-']; sys.argv.append('--check')
    seeds = [dict(id=n, prop=json.load(open('%s/seeded/%s/meta.json' % (V, n)))['property']) for n in sorted(os.listdir(V + '/seeded')) if not only or n in only or n[:3] in only]
else:
    only = [a for a in sys.argv[2:] if a[0] != '-']; seeds = [s for s in runpy.run_path(sys.argv[1])['seeds'] if not only or s['id'] in only]
with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('SEED_JOBS', '1'))) as ex:
    for l in ex.map(one, seeds): print(l, flush=True)
