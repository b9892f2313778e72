#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/table.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path[:0] = [H, os.path.join(V, 'lib'), os.path.join(V, 'checks')]
sys.dont_write_bytecode = True
from table import PROPS, NA, NOTES

def main():
    out = []
    checks = []
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        out.append({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')})
        if p['id'] in NA:
            continue
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'],
                       'level': 'exploration', 'level_note': p['level_note']})
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for o in out:
            f.write(json.dumps(o) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 lib/build.py --all',
         'hooks': {'guard': 'none', 'enable': 'no hook was added to /repo: the checks compile /repo/src with their own build '
                   'file (lib/build.py); lib/shim.c interposes time(), malloc, realloc and free at link time', 'source_commits': []},
         'checks': checks,
         'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()], 'notes': NOTES}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    try:
        import jsonschema
        for s, d in (('MANIFEST', [m]), ('PROPERTIES', out)):
            sch = json.load(open('/root/.vp/%s.schema.json' % s))
            for x in d:
                jsonschema.validate(x, sch)
        print('schemas ok')
    except ImportError:
        print('no jsonschema here')
main()
