"""Workload engine: runs property modules under their monitors."""
import os
import sys
import json
import time
import signal
import hashlib
import resource
import traceback
import importlib
import collections
import multiprocessing

from vf.source import Source
from vf.cov import Coverage

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CODE = os.path.join(REPO, 'verktyg') + os.sep
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
WORKERS = 8
CASE_CPU_S = 40
SCALE = {'quick': 3, 'thorough': 1}


class Violation(Exception):
    def __init__(self, kind, details):
        Exception.__init__(self, kind)
        self.kind = kind
        self.details = details


class Hang(BaseException):
    pass


class HarnessError(Exception):
    """The machinery (not the code under test) could not do its job."""


def _short(v, n=600):
    try:
        r = repr(v)
    except Exception as e:      # a repr may be what is broken
        r = '<repr failed: %r>' % (e,)
    return r if len(r) <= n else r[:n] + '...(%d chars)' % len(r)


class Events(object):
    """What the monitors saw."""

    def __init__(self):
        self.counts = collections.Counter()
        self.keys = set()
        self.evals = 0
        self.samples = []
        self.ctx = {}
        self._sampled = collections.Counter()

    # -- counting ------------------------------------------------------------
    def hit(self, name, n=1):
        self.counts[name] += n

    def case(self, n=1):
        self.evals += n

    def key(self, *parts):
        """Register a distinct non-trivial case."""
        self.keys.add(hashlib.blake2b(
            repr(parts).encode('utf-8', 'backslashreplace'),
            digest_size=8).digest())

    def sample(self, name, /, **kw):
        if self._sampled[name] < 2:
            self._sampled[name] += 1
            self.samples.append(dict(
                {'what': name}, **{k: _short(v, 300) for k, v in kw.items()}))

    # -- judging -------------------------------------------------------------
    def note(self, **kw):
        self.ctx.update(kw)

    def fail(self, kind, /, **details):
        d = dict(self.ctx)
        d.update(details)
        raise Violation(kind, {k: _short(v) for k, v in d.items()})

    def ok(self, cond, kind, /, **details):
        if not cond:
            self.fail(kind, **details)

    def eq(self, got, want, kind, /, **details):
        if not (got == want):
            self.fail(kind, **dict(details, observed=got, expected=want))

    def raises(self, excs, fn, kind, /, **details):
        try:
            r = fn()
        except excs as e:
            return e
        self.fail(kind, **dict(details, result=r, expected_exception=excs))


class Scenario(object):
    def __init__(self, name, fn, quick, thorough=None, fuzz=True):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.fuzz = fuzz


def guarded(fn, ev, *args):
    """Run one case; return None or (kind, details)."""
    ev.ctx = {}
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        fn(*args)
    except Violation as e:
        return (e.kind, e.details)
    except HarnessError:
        raise
    except Hang:
        tb = traceback.format_exc()
        d = {k: _short(v) for k, v in ev.ctx.items()}
        d['traceback'] = tb[-1500:]
        return ('does-not-terminate', d)
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if f.filename.startswith(CODE)]
        where = inside[-1].name if inside else 'harness'
        d = {k: _short(v) for k, v in ev.ctx.items()}
        d['traceback'] = ''.join(traceback.format_exception(
            type(e), e, e.__traceback__))[-3000:]
        return ('unexpected-%s-in-%s' % (type(e).__name__, where), d)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    if ev.ctx:
        ev.sample(getattr(fn, '__name__', 'case'), **ev.ctx)
    return None


def _on_alarm(signum, frame):
    raise Hang()


def mutate(rng, log):
    log = list(log)
    op = rng.randrange(5)
    if op == 0 and log:
        return log[:rng.randrange(len(log))]
    if op == 1 and log:
        for _ in range(rng.choice((1, 1, 2, 4))):
            log[rng.randrange(len(log))] = rng.randrange(1 << 16)
        return log
    if op == 2 and log:
        i = rng.randrange(len(log))
        j = min(len(log), i + rng.choice((1, 2, 4, 8)))
        return log[:i] + log[j:]
    if op == 3 and log:
        i = rng.randrange(len(log))
        j = min(len(log), i + rng.choice((1, 2, 4, 8)))
        return log[:j] + log[i:]
    if log:
        i = rng.randrange(len(log))
        log[i] = max(0, log[i] + rng.choice((-1, 1)))
    return log


def shrink(fn, log, kind, budget_s=8.0, max_runs=1500):
    """Trim a failing choice list while it keeps failing in the same way."""
    t0 = time.monotonic()
    runs = [0]

    def fails(cand):
        runs[0] += 1
        ev = Events()
        src = Source(0, cand)
        src.MAX = len(cand)       # everything past the end draws 0
        src.rng = _Zero()
        r = guarded(fn, ev, src, ev)
        if r is not None and r[0] == kind:
            return src.log, r
        return None

    best = None
    got = fails(log)
    if got is None:
        return log, None
    best = got
    improved = True
    while improved:
        improved = False
        cur = list(best[0])
        for width in (64, 16, 8, 4, 2, 1):
            i = len(cur)
            while i > 0:
                if time.monotonic() - t0 > budget_s or runs[0] > max_runs:
                    return best[0], best[1]
                cand = cur[:max(0, i - width)] + cur[i:]
                g = fails(cand)
                if g is not None and len(g[0]) < len(cur):
                    best = g
                    cur = list(g[0])
                    improved = True
                i = min(i, len(cur)) - width
        for i in range(len(cur)):
            if time.monotonic() - t0 > budget_s or runs[0] > max_runs:
                return best[0], best[1]
            for v in (0, cur[i] // 2, cur[i] - 1):
                if 0 <= v < cur[i]:
                    cand = cur[:i] + [v] + cur[i + 1:]
                    g = fails(cand)
                    if g is not None and (len(g[0]), g[0]) < (len(cur), cur):
                        best = g
                        cur = list(g[0])
                        improved = True
                        break
            if i >= len(cur) - 1:
                break
    return best[0], best[1]


class _Zero(object):
    def randrange(self, n):
        return 0


def load(prop):
    sys.path.insert(0, REPO)
    import verktyg
    got = os.path.realpath(verktyg.__file__)
    if not got.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError('wrong verktyg: %s' % got)
    return importlib.import_module('vf.props.%s' % prop.lower())


def known_kinds(prop):
    """Mechanism keys of findings recorded as unrepaired."""
    out = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: property=%s ' % prop):
                    rest = line[len('finding: property=%s ' % prop):]
                    key, _, text = rest.partition(' ')
                    if key.startswith('key='):
                        out[key[4:]] = text
    except OSError:
        pass
    return out


def _worker(index, prop, tier, seed, conn, stop, deadline):
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    signal.signal(signal.SIGVTALRM, _on_alarm)
    devnull = open(os.devnull, 'w')
    res = {'violations': [], 'known': {}, 'error': None, 'cut': False}
    ev = Events()
    cov = Coverage(CODE)
    per = {}
    try:
        mod = load(prop)
        known = known_kinds(prop)
        cov.start()
        for n, (name, fn) in enumerate(getattr(mod, 'DIRECTED', ())):
            if n % WORKERS != (WORKERS - 1 - index):
                continue
            if stop.is_set() or time.monotonic() > deadline:
                res['cut'] = True
                break
            t0 = time.monotonic()
            r = guarded(fn, ev, ev)
            per[name] = [per.get(name, [0, 0])[0] + 1,
                         time.monotonic() - t0]
            if r is not None:
                if r[0] in known:
                    res['known'][r[0]] = known[r[0]]
                else:
                    res['violations'].append({
                        'kind': r[0], 'details': r[1], 'scenario': name,
                        'directed': True})
                    stop.set()
        for sc in mod.SCENARIOS:
            total = int(getattr(sc, tier) * SCALE[tier])
            mine = total // WORKERS + (1 if index < total % WORKERS else 0)
            import random
            rng = random.Random('%s|%s|%s|%s' % (seed, prop, sc.name, index))
            corpus = []
            cov.take_fresh()
            t0 = time.monotonic()
            done = 0
            for i in range(mine):
                if stop.is_set() or time.monotonic() > deadline:
                    res['cut'] = True
                    break
                prefix = ()
                if sc.fuzz and corpus and rng.random() < 0.3:
                    prefix = mutate(rng, rng.choice(corpus))
                src = Source('%s|%s|%s|%s|%s' % (seed, prop, sc.name, index, i),
                             prefix)
                ev.evals += 1
                r = guarded(sc.fn, ev, src, ev)
                done += 1
                if r is not None:
                    if r[0] in known:
                        res['known'][r[0]] = known[r[0]]
                        continue
                    log = list(src.log)
                    small, sr = log, None
                    if sc.fuzz:
                        small, sr = shrink(sc.fn, log, r[0])
                    res['violations'].append({
                        'kind': r[0],
                        'details': (sr or r)[1],
                        'scenario': sc.name,
                        'directed': False,
                        'choices': small if sr else log,
                        'original_choices': log,
                    })
                    stop.set()
                    break
                if cov.take_fresh() and len(corpus) < 400:
                    corpus.append(list(src.log))
            per[sc.name] = [done, time.monotonic() - t0]
        if hasattr(mod, 'finish'):
            mod.finish()
    except BaseException:
        res['error'] = traceback.format_exc()
        stop.set()
    cov.stop()
    res['counts'] = ev.counts
    res['keys'] = ev.keys
    res['evals'] = ev.evals
    res['samples'] = ev.samples
    res['lines'] = {(f[len(CODE):], l) for f, l in cov.lines}
    res['branches'] = len(cov.branches)
    res['per'] = per
    conn.send(res)
    conn.close()
    os._exit(0)


def run(prop, tier, seed):
    t0 = time.monotonic()
    # Import problems show up once, here, before forking.
    mod = load(prop)
    cap = float(os.environ.get(
        'VERIF_CAP_S', '600' if tier == 'quick' else '5400'))
    ctx = multiprocessing.get_context('fork')
    stop = ctx.Event()
    procs = []
    deadline = t0 + cap
    for i in range(WORKERS):
        r, w = ctx.Pipe(False)
        p = ctx.Process(target=_worker,
                        args=(i, prop, tier, seed, w, stop, deadline))
        p.start()
        w.close()
        procs.append((p, r))
    results = []
    errors = []
    for i, (p, r) in enumerate(procs):
        try:
            while not r.poll(1):
                if time.monotonic() > deadline + 90:
                    raise EOFError
            results.append(r.recv())
        except EOFError:
            errors.append('worker %d died or was cut off' % i)
        if p.is_alive():
            p.join(5)
        if p.is_alive():
            p.kill()
    counts = collections.Counter()
    keys = set()
    lines = set()
    evals = 0
    samples, violations = [], []
    known = {}
    cut = False
    per = collections.defaultdict(lambda: [0, 0.0])
    for r in results:
        counts.update(r['counts'])
        keys |= r['keys']
        lines |= r['lines']
        evals += r['evals']
        samples.extend(r['samples'])
        violations.extend(r['violations'])
        known.update(r['known'])
        cut = cut or r['cut']
        if r['error']:
            errors.append(r['error'])
        for k, (n, s) in r['per'].items():
            per[k][0] += n
            per[k][1] += s
    missing = {k: (counts.get(k, 0), v)
               for k, v in getattr(mod, 'REQUIRED', {}).items()
               if counts.get(k, 0) < v}
    seen, uniq = set(), []
    for s in samples:
        if s['what'] not in seen or len(uniq) < 4:
            uniq.append(s)
        seen.add(s['what'])
    perfile = collections.Counter(f for f, _ in lines)
    if os.environ.get('VERIF_LINES'):
        with open(os.environ['VERIF_LINES'], 'w') as f:
            json.dump({'lines': sorted(lines),
                       'cost': time.monotonic() - t0}, f)
    os.makedirs(EVIDENCE, exist_ok=True)
    evidence = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': len(keys),
            'rule': mod.RULE,
            'samples': uniq[:12],
            'monitor_events': dict(sorted(counts.items())),
            'required_events': getattr(mod, 'REQUIRED', {}),
            'code_lines_executed_per_file': dict(sorted(perfile.items())),
            'workload_runs': {k: {'runs': n, 'cpu_s': round(s, 2)}
                              for k, (n, s) in sorted(per.items())},
            'cut_short': cut,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.monotonic() - t0, 3),
        'violations': len(violations),
    }
    if not samples:
        evidence['coverage']['samples'] = ['none']
    tmp = os.path.join(EVIDENCE, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write('\n')
    os.replace(tmp, os.path.join(EVIDENCE, prop + '.json'))

    for k, text in sorted(known.items()):
        print('KNOWN-FINDING: property=%s %s (%s)' % (prop, text, k))
    if violations:
        d = os.path.join(EVIDENCE, 'replays')
        os.makedirs(d, exist_ok=True)
        done = set()
        for n, v in enumerate(violations):
            if v['kind'] in done:
                continue
            done.add(v['kind'])
            path = os.path.join(d, '%s-%d.json' % (prop, len(done)))
            with open(path, 'w') as f:
                json.dump(dict(v, property=prop, tier=tier, seed=seed), f,
                          indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  kind: %s  (workload %s)' % (v['kind'], v['scenario']))
            for k, x in v['details'].items():
                print('  %s: %s' % (k, x))
        sys.stdout.flush()
        return 1
    if errors:
        print('ERROR property=%s' % prop)
        for e in errors:
            print(e)
        return 2
    if missing:
        print('INCONCLUSIVE property=%s monitors not reached: %r'
              % (prop, missing))
        return 2
    print('OK property=%s tier=%s seed=%s evaluations=%d distinct=%d '
          'events=%d wall=%.1fs%s' % (
              prop, tier, seed, evals, len(keys), sum(counts.values()),
              time.monotonic() - t0, ' (cut at the time cap)' if cut else ''))
    if os.environ.get('VERIF_VERBOSE'):
        for k, (n, s) in sorted(per.items()):
            print('   %-28s runs=%-7d cpu=%.1fs' % (k, n, s))
        print('   ', dict(sorted(counts.items())))
    return 0


def replay(path):
    with open(path) as f:
        v = json.load(f)
    mod = load(v['property'])
    signal.signal(signal.SIGVTALRM, _on_alarm)
    ev = Events()
    if v['directed']:
        fn = dict(mod.DIRECTED)[v['scenario']]
        r = guarded(fn, ev, ev)
    else:
        sc = [s for s in mod.SCENARIOS if s.name == v['scenario']][0]
        src = Source(0, v['choices'])
        src.rng = _Zero()
        r = guarded(sc.fn, ev, src, ev)
    if r is None:
        print('no violation: the recorded execution is fine on this tree')
        return 0
    print('VIOLATION property=%s replay=%s' % (v['property'], path))
    print('  kind:', r[0])
    for k, x in r[1].items():
        print('  %s: %s' % (k, x))
    return 1
