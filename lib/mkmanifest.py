"""Writes MANIFEST.json from properties.jsonl and the check modules present in props/."""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V + '/lib', V + '/props']; sys.dont_write_bytecode = True
NA = {}
checks = []; na = []
for l in open(V + '/properties.jsonl'):
    d = json.loads(l); i = d['id']
    if i not in NA and os.path.exists('%s/props/%s.py' % (V, i.lower())):
        m = importlib.import_module(i.lower())
        checks.append({'property': i, 'quick_cmd': './check %s --tier quick' % i, 'thorough_cmd': './check %s --tier thorough' % i, 'technique': m.TECHNIQUE, 'level': m.LEVEL, 'level_note': m.EXPLAIN, 'evidence_file': 'evidence/%s.json' % i})
    else: na.append({'property': i, 'reason': NA.get(i, 'The check for this property is not built yet.')})
json.dump({'version': 1, 'setup_cmd': 'make -s -j8 -C engine', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
