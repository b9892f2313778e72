#!/usr/bin/env python3
"""mkpatch.py ID file <<< 'old\n====\nnew' : writes seeded/ID/patch.diff from one textual replacement"""
import sys, subprocess, os
i, f = sys.argv[1:3]
W = '/tmp/vppatch'
subprocess.run('mkdir -p %s && git -C /repo archive HEAD | tar x -C %s' % (W, W), shell=True, check=True)
if not os.path.isdir(W + '/.git'):
    subprocess.run('cd %s && git init -q . && git add -A . && git -c user.email=a@b -c user.name=a commit -qm x' % W, shell=True, check=True)
else:
    subprocess.run('cd %s && git add -A . && git -c user.email=a@b -c user.name=a commit -qm x --allow-empty' % W, shell=True, check=True)
for blk in sys.stdin.read().split('\n@@@@\n'):
    old, new = blk.split('\n====\n')
    new = new.rstrip('\n')
    s = open(W + '/' + f).read()
    assert s.count(old) == 1, (s.count(old), old)
    open(W + '/' + f, 'w').write(s.replace(old, new))
d = os.environ.get('SD', '/verif/seeded') + '/' + i
os.makedirs(d, exist_ok=True)
mode = 'a' if os.environ.get('APPEND') else 'w'
open(d + '/patch.diff', mode).write(subprocess.run('git -C %s diff' % W, shell=True, capture_output=True, text=True).stdout)
subprocess.run('git -C %s checkout -q -- .' % W, shell=True)
