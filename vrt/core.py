"""Runner and recorder shared by every check.

A check is a module with `run(ctx)`.  It drives the real code in /repo through
`ctx.call` (which records the event, silences prints, turns an unexpected
exception or a hang into a violation) and judges what came back with
`ctx.expect` / `ctx.close`.  Everything counted ends up in evidence/<id>.json.
"""
import collections
import contextlib
import hashlib
import io
import json
import os
import pickle
import signal
import sys
import time
import traceback
import warnings
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VRT_REPO', '/repo')
MAXV = 40


class Hang(Exception):
    pass


class Inconclusive(Exception):
    pass


def show(x, n=6):
    """compact, JSON-able rendering of an input or output."""
    if isinstance(x, np.ndarray):
        if x.size <= 4*n:
            return {'array': [str(v) for v in x.ravel()], 'shape': list(x.shape)}
        return {'array_head': [str(v) for v in x.ravel()[:n]], 'shape': list(x.shape),
                'sha': hashlib.sha1(np.ascontiguousarray(x).tobytes()).hexdigest()[:10]}
    if isinstance(x, (list, tuple)):
        return [show(v, n) for v in x[:12]]
    if isinstance(x, dict):
        return {str(k): show(v, n) for k, v in x.items()}
    if isinstance(x, (np.floating, np.integer, np.complexfloating)):
        return str(x)
    if isinstance(x, (int, float, str, bool, type(None))):
        return x
    return repr(x)[:200]


class Ctx:
    def __init__(self, prop, tier, seed, shard=0, shards=1, budget=240.):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.shard, self.shards = shard, shards
        self.t0 = time.time()
        self.budget = budget
        self.evals = 0
        self.distinct = set()
        self.events = collections.Counter()
        self.margins = {}
        self.samples = []
        self.violations = []
        self.known_hits = collections.Counter()
        self.kinds = collections.Counter()
        self.truncated = False
        self.info = {}
        self.label = None
        self.thorough = tier == 'thorough'
        self.boost = 1

    # ---- workload control -------------------------------------------------
    def rng(self, *key):
        h = hashlib.sha256(repr((self.prop, self.seed)+key).encode()).digest()
        return np.random.default_rng(np.frombuffer(h, dtype=np.uint32))

    def rounds(self, quick, thorough=None, name='r'):
        """yield (index, rng) for this shard's share of the rounds."""
        n = quick*self.boost if not self.thorough else (thorough if thorough is not None else quick*20)
        for i in range(n):
            if i % self.shards != self.shard:
                continue
            if time.time()-self.t0 > self.budget:
                self.truncated = True
                return
            self.label = (name, i)
            yield i, self.rng(name, i)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    @property
    def first(self):
        return self.shard == 0

    # ---- recording --------------------------------------------------------
    def case(self, key, nontrivial=True, sample=None):
        self.evals += 1
        if nontrivial:
            self.distinct.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])
        if sample is not None and len(self.samples) < 4:
            self.samples.append(show(sample))

    def fail(self, kind, detail, inputs=None):
        self.kinds[kind] += 1
        if self.kinds[kind] <= 3 and len(self.violations) < MAXV:
            self.violations.append({'kind': kind, 'detail': detail, 'inputs': show(inputs),
                                    'label': self.label})

    def expect(self, cond, kind, detail='', inputs=None):
        self.events['verdicts'] += 1
        if not bool(cond):
            self.fail(kind, detail, inputs)
            return False
        return True

    def close(self, got, want, scale, tol, kind, inputs=None):
        """|got-want| <= tol*scale elementwise; records the worst margin."""
        self.events['verdicts'] += 1
        try:
            got = np.asarray(got)
            want = np.asarray(want)
            if got.shape != want.shape:
                self.fail(kind, f'shape {got.shape} instead of {want.shape}', inputs)
                return False
            if got.dtype == object or got.dtype.kind in 'USV':
                self.fail(kind, f'not numeric: {got.dtype}', inputs)
                return False
            err = np.abs(got-want)
            lim = np.broadcast_to(np.asarray(scale, float)*tol, err.shape)
            bad = ~(err <= lim)
            ratio = float(np.max(np.where(lim > 0, err/np.where(lim > 0, lim, 1),
                                          np.where(err > 0, np.inf, 0)), initial=0.)) \
                if err.size else 0.
            if np.isnan(err).any():
                ratio = float('nan')
        except (TypeError, ValueError) as e:
            self.fail(kind, f'result cannot be compared: {e!r}', inputs)
            return False
        k = kind
        if not (self.margins.get(k, -1) >= ratio):
            self.margins[k] = ratio
        if bad.any():
            j = np.unravel_index(np.argmax(np.where(np.isnan(err), np.inf,
                                                    np.where(lim > 0, err/np.where(lim > 0, lim, 1e-300), err))),
                                 err.shape) if err.ndim else ()
            self.fail(kind, f'at {tuple(int(v) for v in j)}: got {got[j]} want {want[j]} '
                            f'err {err[j]:.3g} allowed {lim[j]:.3g}; {int(bad.sum())} of '
                            f'{bad.size} entries', inputs)
            return False
        return True

    # ---- driving the code under test --------------------------------------
    def call(self, fn, *a, _kind=None, _limit=60, _raises=None, **k):
        """run fn; returns (ok, value). Unexpected exceptions/hangs are violations.
        _raises: exception types that are the *required* outcome."""
        name = getattr(fn, '__name__', str(fn))
        mod = getattr(fn, '__module__', '') or ''
        tag = f'{mod.split(".")[-1]}.{name}'
        self.events[tag] += 1
        kind = _kind or tag

        def onalarm(*_):
            raise Hang()
        old = signal.signal(signal.SIGALRM, onalarm)
        signal.setitimer(signal.ITIMER_REAL, _limit)
        try:
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with np.errstate(all='ignore'):
                    v = fn(*a, **k)
        except Hang:
            self.fail(kind+':hang', f'no result after {_limit} s', [a, k])
            return False, None
        except Inconclusive:
            raise
        except Exception as e:
            if _raises and isinstance(e, _raises):
                self.events['required exceptions'] += 1
                return True, e
            self.fail(kind+':exception', f'{type(e).__name__}: {e}\n' +
                      ''.join(traceback.format_tb(e.__traceback__)[-3:]), [a, k])
            return False, None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        if _raises:
            self.fail(kind+':accepted', f'no {_raises} raised', [a, k])
            return False, v
        return True, v

    def state(self):
        return {k: getattr(self, k) for k in
                ('evals', 'distinct', 'events', 'margins', 'samples', 'violations', 'kinds',
                 'truncated', 'info')}

    def merge(self, st):
        self.evals += st['evals']
        self.distinct |= st['distinct']
        self.events += st['events']
        self.kinds += st['kinds']
        for k, v in st['margins'].items():
            if not (self.margins.get(k, -1) >= v):
                self.margins[k] = v
        self.samples += st['samples'][:max(0, 6-len(self.samples))]
        self.violations += st['violations'][:max(0, MAXV-len(self.violations))]
        self.truncated |= st['truncated']
        for k, v in st['info'].items():
            if isinstance(v, (int, float)) and k in self.info:
                self.info[k] += v
            else:
                self.info[k] = v


def known(prop):
    """known findings of this property: list of (kind-prefix, text)."""
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for line in open(p):
            f = line.rstrip('\n').split(None, 3)
            if len(f) >= 4 and f[0] == 'known:' and f[1] == 'property='+prop:
                out.append((f[2].split('=', 1)[1], f[3]))
    return out


def run_check(mod, prop, tier, seed, shards):
    budget = 600. if tier == 'thorough' else 300.
    master = Ctx(prop, tier, seed, 0, shards, budget)
    real_out = sys.stdout
    shards = min(shards, getattr(mod, 'SHARDS', shards))
    kids = []
    err = None
    for s in range(shards):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                c = Ctx(prop, tier, seed, s, shards, budget)
                c.boost = getattr(mod, 'QUICK', 1)
                try:
                    mod.run(c)
                    res = ('ok', c.state())
                except BaseException:
                    res = ('err', traceback.format_exc(), c.state())
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(res, f)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    for pid, r in kids:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        if not data:
            err = err or f'worker died, status {status}'
            continue
        res = pickle.loads(data)
        if res[0] == 'err':
            err = err or res[1]
            master.merge(res[2])
        else:
            master.merge(res[1])
    c = master
    finds = known(prop)
    new, listed = [], collections.OrderedDict()
    for kind in c.kinds:
        hit = [t for p, t in finds if kind == p or kind.startswith(p+':')]
        if hit:
            listed[hit[0]] = listed.get(hit[0], 0)+c.kinds[kind]
        else:
            new.append(kind)
    for t in listed:
        print(f'KNOWN-FINDING: property={prop} {t}', file=real_out)
    vio = [v for v in c.violations if v['kind'] in new]
    need = getattr(mod, 'REQUIRE', [])
    if not err and not new:
        miss = [n for n in need if c.events.get(n, 0) == 0]
        if miss:
            err = f'inconclusive: no events observed for {miss}'
        if c.evals == 0 or len(c.distinct) < 2:
            err = err or 'inconclusive: workload did not reach the property'
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {
              'evaluations': c.evals, 'distinct_nontrivial': len(c.distinct),
              'rule': mod.RULE, 'samples': c.samples[:6] or ['none'],
              'events_observed': dict(sorted(c.events.items())),
              'worst_error_over_allowed': {k: v for k, v in sorted(c.margins.items())},
              'workers': shards, 'stopped_by_time_budget': c.truncated, **c.info},
          'assumptions': getattr(mod, 'ASSUME', []),
          'wall_s': round(time.time()-c.t0, 2), 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop+'.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if new:
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, f'{prop}-{tier}-{seed}.json')
        with open(rp, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'seed': seed,
                       'replay': f'/verif/check {prop} --tier {tier} --seed {seed}',
                       'kinds': {k: c.kinds[k] for k in new}, 'violations': vio},
                      f, indent=1, default=str)
        for v in vio[:6]:
            print(f'  {v["kind"]} {v["label"]}: {v["detail"]}'[:600], file=real_out)
        print(f'VIOLATION property={prop} replay={rp}', file=real_out)
        return 1
    if err:
        print(f'check {prop} could not decide:\n{err}', file=real_out)
        return 2
    print(f'{prop} held: {c.evals} cases, {len(c.distinct)} distinct, '
          f'{c.events["verdicts"]} verdicts, {ev["wall_s"]} s', file=real_out)
    return 0
