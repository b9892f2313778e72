"""Builds everything a check needs from /repo's current working tree.

Artefacts live in /verif/build/<key>/ where <key> hashes the sources, so a
changed tree always gets a fresh build."""
import hashlib, os, re, subprocess, sys, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.environ.get('VP_BUILD', os.path.join(VERIF, 'build'))
LIB = os.path.join(VERIF, 'lib')

def _flags_cpu():
    try:
        for l in open('/proc/cpuinfo'):
            if l.startswith('flags'):
                return set(l.split(':', 1)[1].split())
    except OSError:
        pass
    return set()

CPU = _flags_cpu()
HAS512 = all(f in CPU for f in ('avx512f', 'avx512bw', 'avx512dq', 'avx512vl'))
HAS2 = 'avx2' in CPU

def variants():
    v = []
    if HAS512:
        v.append('avx512')
    if HAS2:
        v.append('avx2')
    v.append('scalar')
    return v

def native():
    return variants()[0]

SIMD = {'avx512': ['-mavx', '-mfma', '-mavx2', '-mavx512f', '-mavx512cd', '-mavx512vl', '-mavx512bw', '-mavx512dq'],
        'avx2': ['-mavx', '-mfma', '-mavx2'], 'scalar': []}
DEFS = {'avx512': ['HAVE_AVX2 1', 'HAVE_AVX512_F 1'], 'avx2': ['HAVE_AVX2 1'], 'scalar': []}
WRAP = ['-Wl,--wrap=malloc,--wrap=realloc,--wrap=free']
TUS = ['src/msolve/main.c', 'src/neogb/gb.c', 'src/fglm/fglm_core.c', 'src/usolve/usolve.c']
SAN = {'': ['-O2', '-g'],
       'asan': ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
                '-fno-sanitize=shift,alignment,nonnull-attribute', '-fno-sanitize-recover=undefined'],
       'cov': ['-O1', '-g', '--coverage'],
       # deterministic schedules: lib/sched.c stands in for the OpenMP runtime and receives the hooks of the instrumentation
       'sched': ['-O2', '-g', '-fsanitize=thread', '-DVP_WRAP']}

def _tree_hash():
    h = hashlib.sha256()
    src = os.path.join(REPO, 'src')
    for d, ds, fs in os.walk(src):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(('.c', '.h')):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, src).encode())
                h.update(open(p, 'rb').read())
    return h.hexdigest()

def _run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stderr.write(' '.join(cmd) + '\n' + r.stdout.decode(errors='replace')[-4000:])
        raise RuntimeError('build failed: ' + ' '.join(cmd[-4:]))

class Lock:
    def __init__(self, path):
        self.path = path
    def __enter__(self):
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        self.f = open(self.path, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()

def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:16]

def _config(d, var):
    os.makedirs(d, exist_ok=True)
    c = os.path.join(d, 'config.h')
    if os.path.exists(c):
        return
    with open(c + '.tmp', 'w') as f:
        for x in DEFS[var] + ['VERSION "0.7.5"', 'PACKAGE "msolve"', 'PACKAGE_NAME "msolve"',
                              'PACKAGE_VERSION "0.7.5"', 'PACKAGE_STRING "msolve 0.7.5"',
                              'STDC_HEADERS 1', 'HAVE_STDINT_H 1', 'HAVE_STDLIB_H 1', 'HAVE_STRING_H 1']:
            f.write('#define %s\n' % x)
    os.rename(c + '.tmp', c)

def _objs(ex, d, var, san, extra):
    """submits compile jobs, returns futures and object paths"""
    cfg = os.path.join(d, 'cfg-' + var)
    _config(cfg, var)
    base = ['gcc', '-DHAVE_CONFIG_H', '-I' + cfg, '-I' + REPO, '-w', '-fopenmp'] + ([] if san else ['-DVP_WRAP']) + SAN[san] + SIMD[var]
    fs = []
    for src in extra:
        o = os.path.join(d, '%s-%s%s.o' % (os.path.basename(src).replace('.c', ''), var, san))
        if not os.path.exists(o):
            p = src if os.path.isabs(src) else os.path.join(REPO, src)
            b = base if os.path.basename(src) not in ('sched.c', 'shim.c') or san != 'sched' else ['gcc', '-O2', '-g', '-w', '-DVP_WRAP']
            fs.append((ex.submit(_run, b + ['-c', p, '-o', o + '.tmp.o'], d), o))
        else:
            fs.append((None, o))
    return fs

def ensure(need):
    """need: iterable of 'oracle', 'msolve:<var>[:<san>]', 'api:<var>[:<san>]'. Returns name->path."""
    key = _sha(_tree_hash())
    d = os.path.join(BUILD, 'tree-' + key)
    od = os.path.join(BUILD, 'oracle-' + _sha(open(os.path.join(LIB, 'oracle.cpp'), 'rb').read()))
    out = {}
    with Lock(os.path.join(BUILD, '.lock')):
        os.makedirs(d, exist_ok=True)
        os.makedirs(od, exist_ok=True)
        with ThreadPoolExecutor(8) as ex:
            jobs = []
            links = []
            for n in need:
                if n == 'oracle':
                    o = os.path.join(od, 'oracle.so')
                    out[n] = o
                    if not os.path.exists(o):
                        jobs.append((ex.submit(_run, ['g++', '-O2', '-shared', '-fPIC', '-w',
                                     os.path.join(LIB, 'oracle.cpp'), '-o', o + '.tmp.o', '-lflint', '-lmpfr', '-lgmp']), o))
                    continue
                parts = n.split(':')
                kind, var, san = parts[0], parts[1], (parts[2] if len(parts) > 2 else '')
                shim = os.path.join(LIB, 'shim.c')
                if kind == 'husmall':
                    # the same sources with a smaller cut-off of the recursive Taylor shift: low degrees reach it
                    srcs = [os.path.join(LIB, 'hus.c')] + TUS[1:3] + [_small(d), shim]
                elif kind == 'msolve':
                    srcs = TUS + [shim]
                else:
                    srcs = [os.path.join(LIB, kind + '.c')] + TUS[1:] + [shim]
                if san == 'sched':
                    srcs.append(os.path.join(LIB, 'sched.c'))
                tag = _sha(*[open(s, 'rb').read() for s in srcs if os.path.isabs(s)])
                exe = os.path.join(d, '%s-%s%s-%s' % (kind, var, san, tag[:8]))
                out[n] = exe
                if os.path.exists(exe):
                    continue
                # private harness objects depend on /verif sources: never reuse
                for s in srcs:
                    if os.path.isabs(s):
                        o = os.path.join(d, '%s-%s%s.o' % (os.path.basename(s).replace('.c', ''), var, san))
                        if os.path.exists(o) and o not in [x[1] for x in jobs]:
                            os.unlink(o)
                have = [x[1] for x in jobs]
                objs = []
                for f, o in _objs(ex, d, var, san, [s for s in srcs]) if not have else _objs_skip(ex, d, var, san, srcs, have):
                    objs.append(o)
                    if f is not None:
                        jobs.append((f, o))
                links.append((exe, objs, san))
            for f, o in jobs:
                f.result()
                os.rename(o + '.tmp.o', o)
            for exe, objs, san in links:
                if san == 'sched':
                    _run(['gcc'] + WRAP + objs + ['-o', exe + '.tmp', '-lflint', '-lmpfr', '-lgmp', '-lm', '-lpthread'])
                    os.rename(exe + '.tmp', exe)
                    continue
                cmd = ['gcc', '-fopenmp'] + ([] if san else WRAP) + [x for x in SAN[san] if x.startswith(('-fsan', '--cov'))] + objs + \
                      ['-o', exe + '.tmp', '-lflint', '-lmpfr', '-lgmp', '-lm', '-lpthread']
                _run(cmd)
                os.rename(exe + '.tmp', exe)
    return out

def _small(d):
    t = os.path.join(d, 'small', 'src')
    o = os.path.join(t, 'usolve', 'usolve_small.c')
    if not os.path.exists(o):
        os.makedirs(os.path.join(t, 'usolve'), exist_ok=True)
        for x in os.listdir(os.path.join(REPO, 'src')):
            if x != 'usolve' and not os.path.lexists(os.path.join(t, x)):
                os.symlink(os.path.join(REPO, 'src', x), os.path.join(t, x))
        for x in os.listdir(os.path.join(REPO, 'src', 'usolve')):
            if not x.endswith(('.c', '.h')) or x == 'usolve.c':
                continue
            s = open(os.path.join(REPO, 'src', 'usolve', x)).read()
            open(os.path.join(t, 'usolve', x), 'w').write(re.sub(r'(#define\s+THRESHOLDSHIFT\s+)256', r'\g<1>5', s))
        s = open(os.path.join(REPO, 'src', 'usolve', 'usolve.c')).read()
        open(o + '.tmp', 'w').write(re.sub(r'(#define\s+THRESHOLDSHIFT\s+)256', r'\g<1>5', s))
        os.rename(o + '.tmp', o)
    return o

def _objs_skip(ex, d, var, san, srcs, have):
    res = []
    for s in srcs:
        o = os.path.join(d, '%s-%s%s.o' % (os.path.basename(s).replace('.c', ''), var, san))
        if o in have:
            res.append((None, o))
        else:
            res.extend(_objs(ex, d, var, san, [s]))
    return res

def prune(keep_days=0):
    """removes builds of other trees"""
    key = 'tree-' + _sha(_tree_hash())
    if os.path.isdir(BUILD):
        for f in os.listdir(BUILD):
            if f.startswith('tree-') and f != key:
                shutil.rmtree(os.path.join(BUILD, f), ignore_errors=True)

if __name__ == '__main__':
    if sys.argv[1:] == ['--all']:
        sys.argv[1:] = []
    for k, v in ensure(sys.argv[1:] or ['oracle'] + ['msolve:' + v for v in variants()]).items():
        print(k, v)
