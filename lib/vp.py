"""Core helpers: polynomials, the oracle binding, running msolve, parsing its output.

A polynomial is a dict {exponent tuple: int or Fraction}; a system is
(nvars, list of polynomials)."""
import ctypes, os, re, resource, shutil, signal, subprocess, tempfile, time
from fractions import Fraction
import sys
sys.set_int_max_str_digits(0)

# ---------------------------------------------------------------- oracle
_lib = None
def load_oracle(path):
    global _lib
    _lib = ctypes.CDLL(path)
    _lib.vp_oracle.restype = ctypes.c_void_p
    _lib.vp_oracle.argtypes = [ctypes.c_char_p]
    _lib.vp_free.argtypes = [ctypes.c_void_p]

class TooHard(Exception):
    pass

class OracleError(Exception):
    pass

def oracle(req):
    p = _lib.vp_oracle(req.encode())
    s = ctypes.string_at(p).decode()
    _lib.vp_free(p)
    if s.startswith('TOOHARD'):
        raise TooHard()
    if s.startswith('ERR'):
        raise OracleError(s.strip())
    return s

BUDGET = 12000000
# three 61/60-bit primes for checks over Q (independent of msolve's 31-bit ones)
# random primes: special ones (2^61-1) divide numbers like 9*2^(2k)-m
BIGP = [766926428447153341, 1143305965562578849, 797447113082814637]

def modp(c, p):
    if isinstance(c, Fraction):
        return c.numerator % p * pow(c.denominator, -1, p) % p
    return c % p

def poly_modp(f, p):
    r = {}
    for e, c in f.items():
        c = modp(c, p)
        if c:
            r[e] = c
    return r

def ser(f):
    out = [str(len(f))]
    for e, c in f.items():
        out.append('%d %s' % (c, ' '.join(map(str, e))))
    return ' '.join(out)

def serl(F, p):
    return '%d %s' % (len(F), ' '.join(ser(poly_modp(f, p)) for f in F))

def _rd(tok, i, nv):
    n = int(tok[i]); i += 1
    f = {}
    for _ in range(n):
        f[tuple(map(int, tok[i + 1:i + 1 + nv]))] = int(tok[i])
        i += nv + 1
    return f, i

def ref_gb(F, p, nv, elim=0, lex=0, budget=None):
    s = oracle('gb %d %d %d %d %d %s' % (budget or BUDGET, p, nv, elim, lex, serl(F, p))).split()
    n = int(s[0]); i = 1
    G = []
    for _ in range(n):
        f, i = _rd(s, i, nv)
        G.append(f)
    return G

def ref_nf(G, F, p, nv, elim=0, lex=0, budget=None):
    s = oracle('nf %d %d %d %d %d %s %s' % (budget or BUDGET, p, nv, elim, lex, serl(G, p), serl(F, p))).split()
    n = int(s[0]); i = 1
    R = []
    for _ in range(n):
        f, i = _rd(s, i, nv)
        R.append(f)
    return R

def ref_info(F, p, nv, budget=None):
    """(dimension, D, number of distinct zeros over the closure)"""
    return tuple(map(int, oracle('info %d %d %d 0 0 %s' % (budget or BUDGET, p, nv, serl(F, p))).split()))

def ref_minpolys(F, p, nv, forms, budget=None):
    s = oracle('minpolys %d %d %d 0 0 %s %d %s' % (budget or BUDGET, p, nv, serl(F, p), len(forms),
               ' '.join(' '.join(str(c % p) for c in l) for l in forms))).split('\n')
    if s[0].startswith('notzero'):
        return None
    return [list(map(int, x.split()))[1:] for x in s[1:1 + len(forms)]]

def ref_param(F, p, nv, w, den, nums, budget=None):
    def u(v):
        return '%d %s' % (len(v), ' '.join(str(modp(c, p)) for c in v))
    s = oracle('param %d %d %d 0 0 %s %s %s %s' % (budget or 10 * BUDGET, p, nv, serl(F, p), u(w), u(den),
               ' '.join(u(x) for x in nums)))
    return s.split('\n')

def ref_gbcheck(G, F, p, nv, elim=0, lex=0, budget=None):
    return oracle('gbcheck %d %d %d %d %d %s %s' % (budget or BUDGET, p, nv, elim, lex, serl(G, p), serl(F, p))).strip()

# monomial comparison keys (larger key = larger monomial)
def mkey(elim=0, lex=0):
    if lex:
        return lambda e: e
    if elim:
        return lambda e: (sum(e[:elim]), tuple(-x for x in reversed(e[:elim])),
                          sum(e[elim:]), tuple(-x for x in reversed(e[elim:])))
    return lambda e: (sum(e), tuple(-x for x in reversed(e)))

def lead(f, key):
    return max(f, key=key)

# ---------------------------------------------------------------- printing input
def fmt_coef(c):
    return str(c)

def poly_str(f, vars, order=None):
    """plain rendering accepted by msolve: coefficient*var^e..."""
    if not f:
        return '0'
    terms = list(f.items()) if order is None else [(e, f[e]) for e in order]
    out = []
    for e, c in terms:
        mon = '*'.join(v if k == 1 else '%s^%d' % (v, k) for v, k in zip(vars, e) if k)
        if mon:
            if c == 1:
                t = mon
            elif c == -1:
                t = '-' + mon
            else:
                t = '%s*%s' % (c, mon)
        else:
            t = str(c)
        if out and not t.startswith('-'):
            t = '+' + t
        out.append(t)
    return ''.join(out)

def varnames(n):
    base = ['x', 'y', 'z', 't', 'u', 'v', 's', 'w']
    if n <= len(base):
        return base[:n]
    return ['x%d' % i for i in range(1, n + 1)]

def sys_str(vars, char, F):
    return ','.join(vars) + '\n' + str(char) + '\n' + ',\n'.join(poly_str(f, vars) for f in F) + '\n'

# ---------------------------------------------------------------- running
BIN = {}
SCR = None
def scratch():
    global SCR
    if SCR is None or not os.path.isdir(SCR) or not SCR.endswith('-%d' % os.getpid()):
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
        SCR = os.path.join(base, 'vp-msolve-%d' % os.getpid())
        os.makedirs(SCR, exist_ok=True)
    return SCR

def cleanup():
    global SCR
    if SCR and SCR.endswith('-%d' % os.getpid()):
        shutil.rmtree(SCR, ignore_errors=True)
        SCR = None

class Res:
    __slots__ = ('rc', 'out', 'stdout', 'stderr', 'timeout')

CPU_LIMIT = 10

def _limits(cpu, mem):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f

def run_msolve(text, opts, variant, t=1700000000, cpu=None, sat=None, to_stdout=False, omp=1, extra_env=None, raw=None):
    d = scratch()
    fi, fo = os.path.join(d, 'in.ms'), os.path.join(d, 'out.ms')
    with open(fi, 'wb') as f:
        f.write(raw if raw is not None else text.encode())
    if os.path.exists(fo):
        os.unlink(fo)
    cmd = [BIN['msolve:' + variant], '-f', fi] + ([] if to_stdout else ['-o', fo]) + [str(o) for o in opts]
    return run_cmd(cmd, fo, variant, t, cpu, omp, extra_env, to_stdout)

ENV = {}     # added to the environment of every run

def run_cmd(cmd, fo, variant, t, cpu=None, omp=1, extra_env=None, to_stdout=False, stdin=None, mem=6 << 30):
    env = {'PATH': '/usr/bin:/bin', 'VP_TIME': str(t), 'OMP_NUM_THREADS': str(omp), 'OMP_WAIT_POLICY': 'passive', 'LC_ALL': 'C',
           'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:hard_rss_limit_mb=6000:allocator_may_return_null=1',
           'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=99'}
    if t % 2:
        # fresh and freed blocks are filled (lib/shim.c): uninitialised or stale reads become visible and repeatable
        env['VP_FILL'] = str([0xff, 0x5a, 0x80, 1, 0x7f][t // 2 % 5])
    if omp <= 1:
        env['OMP_THREAD_LIMIT'] = '1'
    env.update(ENV)
    if extra_env:
        env.update(extra_env)
    r = Res()
    cpu = cpu or CPU_LIMIT
    if 'asan' in variant:
        cpu, mem = cpu * 4, 0
    pref = ['/usr/bin/prlimit', '--cpu=%d:%d' % (cpu, cpu + 5), '--core=0'] + (['--as=%d' % mem] if mem else [])
    p = subprocess.Popen(pref + cmd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=scratch(), close_fds=False)
    try:
        o, e = p.communicate(stdin, timeout=min(cpu * 6 + 60, 200))
        r.timeout = False
    except subprocess.TimeoutExpired:
        p.kill()
        o, e = p.communicate()
        r.timeout = True
    r.rc = p.returncode
    if r.rc in (-signal.SIGXCPU, -signal.SIGKILL, 128 + signal.SIGXCPU):
        r.timeout = True
    r.stdout = o.decode('latin1')
    r.stderr = e.decode('latin1')
    if fo and os.path.exists(fo):
        with open(fo, 'rb') as f:
            r.out = f.read().decode('latin1')
    else:
        r.out = r.stdout if to_stdout else ''
    return r

class Bad(Exception):
    """an observed violation"""

class Inconclusive(Exception):
    pass

def expect_ok(r, what=''):
    if r.timeout:
        raise Inconclusive('timeout ' + what)
    if r.rc != 0 and ('too much memory' in r.stderr or 'too much memory' in r.stdout or 'Cannot allocate' in r.stderr
                      or 'cannot allocate' in r.stderr or 'rss limit' in r.stderr):
        raise Inconclusive('out of memory ' + what)
    if r.rc != 0:
        raise Bad('msolve exited with %s %s: %s' % (r.rc, what, (r.stderr + r.stdout)[-300:]))
    return r

# ---------------------------------------------------------------- parsing output
def parse_poly(s, vars, allow_frac=True):
    """parses a polynomial as msolve prints it (also accepts general input syntax)"""
    s = s.replace(' ', '').replace('\n', '').replace('\r', '')
    idx = {v: i for i, v in enumerate(vars)}
    n = len(vars)
    f = {}
    if s == '':
        raise Bad('empty polynomial in output')
    pos = 0
    for m in re.finditer(r'([+-]?)([^+-]+)', s):
        if m.start() != pos:
            raise Bad('cannot parse polynomial %r' % s[:200])
        pos = m.end()
        c = Fraction(1)
        e = [0] * n
        for k in m.group(2).split('*'):
            if k == '':
                raise Bad('cannot parse polynomial %r' % s[:200])
            if k[0].isdigit():
                try:
                    c *= Fraction(k)
                except (ValueError, ZeroDivisionError):
                    raise Bad('cannot parse coefficient %r' % k)
            else:
                b, _, x = k.partition('^')
                if b not in idx:
                    raise Bad('unknown variable %r in output' % b)
                e[idx[b]] += int(x) if x else 1
        if m.group(1) == '-':
            c = -c
        e = tuple(e)
        if e in f:
            raise Bad('duplicate monomial in output polynomial %r' % s[:200])
        f[e] = int(c) if c.denominator == 1 else c
    if pos != len(s):
        raise Bad('cannot parse polynomial %r' % s[:200])
    return f

def strip_comments(s):
    return '\n'.join(l for l in s.split('\n') if not l.startswith('#'))

def parse_gb(out, vars):
    s = strip_comments(out).strip()
    if not (s.startswith('[') and s.endswith(']:')):
        raise Bad('unexpected basis output %r' % s[:200])
    s = s[1:-2].strip()
    if s == '':
        return []
    return [parse_poly(x, vars) for x in s.split(',')]

_tok = re.compile(r"\s*(\[|\]|,|:|'[^']*'|-?\d+(?:\s*/\s*\d+(?:\^\d+)?)?)")
def parse_list(s):
    """parses msolve's nested bracket output; numbers a / 2^k become Fractions"""
    pos = 0
    stack = [[]]
    s = s.strip()
    while pos < len(s):
        m = _tok.match(s, pos)
        if not m:
            raise Bad('cannot parse output near %r' % s[pos:pos + 60])
        t = m.group(1)
        pos = m.end()
        if t == '[':
            stack.append([])
        elif t == ']':
            if len(stack) < 2:
                raise Bad('unbalanced output')
            x = stack.pop()
            stack[-1].append(x)
        elif t == ',':
            pass
        elif t == ':':
            break
        elif t[0] == "'":
            stack[-1].append(t[1:-1])
        else:
            if '/' in t:
                a, b = t.replace(' ', '').split('/')
                if '^' in b:
                    b0, b1 = b.split('^')
                    q = int(b0) ** int(b1)
                else:
                    q = int(b)
                stack[-1].append(Fraction(int(a), q))
            else:
                stack[-1].append(int(t))
    if len(stack) != 1 or len(stack[0]) != 1:
        raise Bad('unbalanced output %r' % s[:100])
    if s[pos:].strip():
        raise Bad('trailing output %r' % s[pos:pos + 60])
    return stack[0][0]

# ---------------------------------------------------------------- msolve's likely first primes
_libc = ctypes.CDLL(None)
def first_primes(t, k=3):
    """primes msolve is likely to try first for clock value t (used only to build adversarial inputs)"""
    import gen
    _libc.srand(t)
    r = _libc.rand()
    q = gen.next_prime(r % (1303905301 - (1 << 30) + 1) + (1 << 30))
    out = [q]
    for _ in range(k - 1):
        q = gen.next_prime(q)
        out.append(q)
    return out

def start_prime(F, t):
    """the prime a run over Q with clock value t learns its trace from: drawn again while it divides a coefficient"""
    import gen
    _libc.srand(t)
    while True:
        q = gen.next_prime(_libc.rand() % (1303905301 - (1 << 30) + 1) + (1 << 30))
        if all(c % q for f in F for c in f.values()):
            return q

def unlucky_start(F, nv, t, elim=0):
    """True when the leading ideal or the number of solutions modulo the first prime is not the one over Q: the accepted
    Monte Carlo error of learning from one random prime (inputs of the generators can hit it by construction)"""
    q = start_prime(F, t)
    key = mkey(elim)
    L = [sorted(lead(g, key) for g in ref_gb(F, P, nv, elim)) for P in (q, BIGP[0])]
    if L[0] != L[1]:
        return True
    I = [ref_info(F, P, nv) for P in (q, BIGP[0])]
    return I[0] != I[1]
