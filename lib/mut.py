"""Tries small changes against a check without keeping them: python3 lib/mut.py PROP SPEC.py; SPEC: muts = [(name, [(file, old, new), ...]), ...].  /repo is restored after each."""
import sys, subprocess, runpy, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = '/repo'
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace')
prop, spec = sys.argv[1:3]; only = sys.argv[3:]
assert not sh('git -C /repo status --porcelain').stdout.strip()
for name, edits in runpy.run_path(spec)['muts']:
    if only and name not in only: continue
    try:
        bad = None
        for f, a, b in edits:
            p = R + '/' + f; t = open(p, newline='', encoding='latin-1').read(); nl = '\r\n' if '\r\n' in t else '\n'; a = a.replace('\n', nl); b = b.replace('\n', nl)
            if t.count(a) != 1: bad = (f, a, t.count(a)); break
            open(p, 'w', newline='', encoding='latin-1').write(t.replace(a, b))
        if bad: print(name, 'EDIT FAILED', bad); continue
        for P in prop.split(','):
            o = sh('cd /verif && ./check %s' % P); v = [l for l in o.stdout.splitlines() if 'VIOLATION' in l]
            print(name, P, 'CAUGHT' if v else 'missed', o.returncode, (v[0][:200] if v else o.stdout.splitlines()[-1:][0][:200] if o.stdout else o.stderr[-300:]), flush=True)
    finally: sh('git -C /repo checkout -- .')
