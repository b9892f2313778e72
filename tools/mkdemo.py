#!/usr/bin/env python3
"""mkdemo.py ID REPLAY... [-- extra options]: writes seeded/ID/demo.sh comparing msolve's answers on the replay inputs with the ones of the current build"""
import json, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import vp, gen
i = sys.argv[1]
reps = sys.argv[2:]
d = os.environ.get('SD', '/verif/seeded') + '/' + i
out = '#!/bin/bash\nd=$(mktemp -d); trap \'rm -r "$d"\' EXIT\n'
for r in reps:
    j = json.load(open(r)); c = j['case']; pid = j['property']
    vs = vp.varnames(c['nv'])
    t = vp.sys_str(vs, c.get('p', 0), gen.dec(c['F']))
    o = sum(c.get('opts', []), [])
    if pid in ('C01', 'C02', 'C03', 'C04', 'C18'):
        o += ['-g', 1 if 'lead' in c.get('mode', '') else 2]
    if c.get('elim'):
        o += ['-e', c['elim']]
    if 'trunc' in c.get('mode', ''):
        o += ['-N', c['n']]
    if pid == 'C08':
        o += ['-P', c['P']]
        if c['c'] is not None:
            o += ['-c', c['c']]
    if pid in ('C06',) and c.get('prec'):
        o += ['-p', c['prec']]
    o = ' '.join(map(str, o))
    f = tempfile.mktemp()
    open(f, 'w').write(t)
    res = [subprocess.run("timeout 60 /repo/_build/msolve %s -f %s | grep -v '^#'" % (o, f), shell=True, capture_output=True, text=True).stdout for _ in range(3)]
    os.remove(f)
    assert len(set(res)) == 1, 'not deterministic'
    out += "cat > $d/i <<'E'\n%sE\ncat > $d/e <<'E'\n%sE\ntimeout 60 ./_build/msolve %s -f $d/i -o $d/o || exit 1\ngrep -v '^#' $d/o > $d/p\ncmp $d/p $d/e || { cat $d/p; exit 1; }\n" % (t if t.endswith('\n') else t + '\n', res[0], o)
open(d + '/demo.sh', 'w').write(out)
print(out[:1500])
