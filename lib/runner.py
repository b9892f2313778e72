"""Drives one property: generate -> check -> (shrink -> replay 3x -> report)."""
import hashlib, json, multiprocessing as mp, os, random, sys, time, traceback
import build, vp

VERIF = build.VERIF

class Prop:
    id = None
    rule = ''
    assumptions = []
    builds = ['oracle']
    quick_cases = 1000
    thorough_cases = 20000
    quick_wall = 240
    thorough_wall = 3000
    hang_cpu = 100

    def gen(self, R, i, tier):
        raise NotImplementedError
    def check(self, case):
        """returns (nontrivial, labels); raises vp.Bad on a violation"""
        raise NotImplementedError
    def shrinks(self, case):
        return []
    def setup(self):
        pass
    def show(self, case):
        return case
    def excused(self, case):
        """a failing case that only shows the accepted error probability of a documented Monte Carlo method"""
        return False
    def known(self, case):
        """name of a committed known finding covering this case, else None"""
        return None

def key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()

def rng(seed, pid, i):
    return random.Random('%s/%s/%s' % (seed, pid, i))

def evaluate(prop, case):
    """-> ('ok', nontrivial, labels) | ('bad', msg) | ('hard',) | ('hang', msg)"""
    try:
        nt, labels = prop.check(case)
        return ('ok', nt, labels)
    except vp.Bad as e:
        try:
            if prop.excused(case):
                return ('ok', False, ['excused:unlucky-first-prime'])
        except vp.TooHard:
            pass
        return ('bad', str(e)[:2000])
    except vp.TooHard:
        return ('hard',)
    except vp.Inconclusive as e:
        return ('hang', str(e))

def _worker(prop, seed, tier, n, counter, stop, q, deadline):
    ev = 0; hard = 0; nt = set(); labels = {}; samples = []; hangs = []; flaky = []
    err = None; bad = None
    slow = 0
    limit = vp.CPU_LIMIT
    try:
        while not stop.value and time.time() < deadline:
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            if i >= n:
                break
            case = prop.gen(rng(seed, prop.id, i), i, tier)
            if case is None:
                labels['gen-skip'] = labels.get('gen-skip', 0) + 1
                continue
            vp.CPU_LIMIT = limit
            r = evaluate(prop, case)
            ev += 1
            if r[0] == 'hang':
                # slow, or no answer at all? decided here with a generous limit for the first ones
                slow += 1
                if os.environ.get('VP_DEBUG'):
                    print('slow', i, json.dumps(case), flush=True)
                if slow <= 2:
                    vp.CPU_LIMIT = prop.hang_cpu
                    r = evaluate(prop, case)
                    if r[0] == 'hang':
                        hangs.append((i, case, r[1]))
                        stop.value = 1
                        break
                labels['slow'] = labels.get('slow', 0) + 1
                if r[0] == 'hang':
                    if slow > 6:
                        break
                    continue
            if r[0] == 'bad' and any(evaluate(prop, case)[0] != 'bad' for _ in range(2)):
                labels['non-reproducible'] = labels.get('non-reproducible', 0) + 1
                flaky.append((i, case, r[1]))
                continue
            if r[0] == 'bad':
                bad = (i, case, r[1])
                stop.value = 1
                break
            if r[0] == 'hard':
                hard += 1
                continue
            for l in r[2]:
                labels[l] = labels.get(l, 0) + 1
            if r[1]:
                nt.add(key(case))
                if len(samples) < 2:
                    samples.append(prop.show(case))
    except Exception:
        err = traceback.format_exc()
        stop.value = 1
    finally:
        vp.cleanup()
    q.put((ev, hard, nt, labels, samples, hangs, bad, err, flaky))

def shrink(prop, case, budget_s=60, maxtry=1500):
    t0 = time.time()
    tries = 0
    cur = case
    msg = None
    seen = set()
    progress = True
    while progress and time.time() - t0 < budget_s and tries < maxtry:
        progress = False
        for c in prop.shrinks(cur):
            if time.time() - t0 > budget_s or tries >= maxtry:
                break
            k = key(c)
            if k in seen:
                continue
            seen.add(k)
            tries += 1
            r = evaluate(prop, c)
            if r[0] == 'bad':
                cur, msg = c, r[1]
                progress = True
                break
    return cur, msg, tries

def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('fixed:') and not l.startswith('#'):
                d = json.loads(l)
                if d.get('property') == pid:
                    out.append(d)
    return out

def report(prop, case, msg, tier, seed):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (prop.id, key(case)[:12]))
    with open(path, 'w') as f:
        json.dump({'property': prop.id, 'case': case, 'message': msg, 'seed': seed, 'tier': tier,
                   'replay_cmd': 'python3 check.py %s --replay %s' % (prop.id, path)}, f, indent=1)
    return path

def run(prop, tier, seed, cases=None, wall=None, jobs=None):
    t0 = time.time()
    vp.BIN = build.ensure(prop.builds)
    vp.load_oracle(vp.BIN['oracle'])
    prop.setup()
    n = cases or (prop.quick_cases if tier == 'quick' else prop.thorough_cases)
    w = wall or (prop.quick_wall if tier == 'quick' else prop.thorough_wall)
    deadline = time.time() + w
    jobs = jobs or min(8, os.cpu_count() or 1)
    viol = []
    # committed findings first
    for k in load_known(prop.id):
        r = evaluate(prop, k['case'])
        if r[0] in ('bad', 'hang') or r[0] == 'ok' and any(l.startswith('known:') for l in r[2]):
            print('KNOWN-FINDING: property=%s %s' % (prop.id, k['what']))
    ctx = mp.get_context('fork')
    counter = ctx.Value('l', 0)
    stop = ctx.Value('b', 0)
    q = ctx.Queue()
    ps = [ctx.Process(target=_worker, args=(prop, seed, tier, n, counter, stop, q, deadline)) for _ in range(jobs)]
    for p in ps:
        p.start()
    ev = hard = 0; nt = set(); labels = {}; samples = []; hangs = []; bads = []; errs = []; flakes = []
    got = 0
    while got < len(ps):
        try:
            e, h, s, l, sm, hg, bad, err, fl = q.get(timeout=5)
        except Exception:
            if all(not p.is_alive() for p in ps) and q.empty():
                break
            continue
        got += 1
        ev += e; hard += h; nt |= s; samples += sm; hangs += hg
        for k, v in l.items():
            labels[k] = labels.get(k, 0) + v
        if bad:
            bads.append(bad)
        flakes += fl
        if err:
            errs.append(err)
    for p in ps:
        p.join()
    if got < len(ps):
        errs.append('a worker process died')
    for i, case, msg in flakes[:3]:
        print('note: case %d failed once but not on replay (%s): %s' % (i, report(prop, case, 'NOT REPRODUCED: ' + msg, tier, seed), msg[:200]))
    if bads:
        bads.sort(key=lambda b: b[0])
        i, case, msg = bads[0]
        first = (case, msg)
        small, m2, tries = shrink(prop, case)
        ok = all(evaluate(prop, small)[0] == 'bad' for _ in range(3))
        if not ok:
            small = case
            ok = all(evaluate(prop, small)[0] == 'bad' for _ in range(3))
            m2 = None
        if ok:
            path = report(prop, small, m2 or msg, tier, seed)
            print('violation of %s (case %d, %d shrink steps): %s' % (prop.id, i, tries, (m2 or msg)[:600]))
            print(json.dumps(prop.show(small))[:2000])
            viol.append(path)
        else:
            labels['non-reproducible'] = labels.get('non-reproducible', 0) + 1
            print('note: case %d did not reproduce: %s' % (i, msg[:300]))
            p = report(prop, case, 'NOT REPRODUCED: ' + msg, tier, seed)
    elif hangs and not errs:
        hangs.sort(key=lambda h: h[0])
        old = vp.CPU_LIMIT
        vp.CPU_LIMIT = prop.hang_cpu
        for i, case, msg in hangs[:2]:
            r = evaluate(prop, case)
            if r[0] in ('hang', 'bad'):
                path = report(prop, case, 'no answer within %d s of CPU time; the reference needs a bounded small '
                              'number of steps: %s' % (prop.hang_cpu, r[1]), tier, seed)
                print('violation of %s (case %d): no answer: %s' % (prop.id, i, r[1][:300]))
                viol.append(path)
                break
        vp.CPU_LIMIT = old
    vp.cleanup()
    evd = {'property': prop.id, 'tier': tier, 'seed': seed, 'level': 'exploration',
           'coverage': {'evaluations': ev, 'distinct_nontrivial': len(nt), 'rule': prop.rule,
                        'samples': samples[:6], 'labels': dict(sorted(labels.items())),
                        'discarded_reference_budget': hard, 'timeouts': len(hangs), 'planned_cases': n},
           'assumptions': prop.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop.id + '.json'), 'w') as f:
        json.dump(evd, f, indent=1)
    print('%s %s seed=%d: %d cases, %d non-trivial, %d over reference budget, %d timeouts, %.1f s' %
          (prop.id, tier, seed, ev, len(nt), hard, len(hangs), time.time() - t0))
    print(' '.join('%s=%d' % kv for kv in sorted(labels.items())))
    for e in errs:
        sys.stderr.write(e)
    if viol:
        for v in viol:
            print('VIOLATION property=%s replay=%s' % (prop.id, v))
        return 1
    if errs:
        return 2
    return 0

def replay(prop, path):
    vp.BIN = build.ensure(prop.builds)
    vp.load_oracle(vp.BIN['oracle'])
    prop.setup()
    case = json.load(open(path))['case']
    r = evaluate(prop, case)
    vp.cleanup()
    print(r)
    if r[0] == 'bad':
        print('VIOLATION property=%s replay=%s' % (prop.id, path))
        return 1
    return 0
