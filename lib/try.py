#!/usr/bin/env python3
"""try.py FILE: quick experiment. Each line of FILE: SIG<space>C function text with the function named $fN in order; lines starting with # go to the prologue."""
import sys; sys.path.insert(0, '/verif/lib'); sys.path.insert(0, '/verif/props')
from vcheck import *; from vlib import *; import os
pre = []; fns = []
for l in open(sys.argv[1]):
    l = l.rstrip()
    if not l.strip(): continue
    if l[0] == '#': pre.append(l[1:]); continue
    s, t = l.split(' ', 1); m = re.search(r'\$f\d+', t); fns.append((t, m.group(0), s))
c = Ctx('TRY', 'quick', 1); c.prepare()
cases = [Case('t%d' % i, '\n'.join(pre) + '\n' + f[0] + '\n', [f[1:]], **(dict(cmd=sys.argv[2]) if len(sys.argv) > 2 else {})) for i, f in enumerate(fns)]
c.diff('t', cases, deadline=60, traces=2)
for v in c.viol:
    print(v['msg'], '|', fns[int(re.match(r't(\d+)', v['msg']).group(1))][0][:200] if re.match(r't\d+/', v['msg']) else '', open(v['dir'] + '/replay.txt').read().replace(chr(10), ' ')[:200])
print('undec', c.undec, 'errors', c.errors, 'checks', c.tot.get('checks'))
