"""Purity: arguments stay untouched, results are the caller's own, the same call gives the same answer."""
import contextlib
import copy
import decimal
import importlib
import io
import os
import pickle
import signal
import sys
import threading
import time
import warnings
import numpy as np
from vrt import core

MODS = ['c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c12', 'c13', 'c14', 'c15',
        'c16', 'c17', 'c18', 'c19', 'c20', 'c21', 'c30']
RULE = ('the workloads of C01..C21 and C30 with another monitor: every call of a library function has its arguments '
        'compared before and after, its results checked for memory shared with the arguments, is repeated after '
        'the first result has been overwritten and after its arguments were edited in place, is replayed in shuffled '
        'order in a process that has called nothing before, by six threads at once, and in pairs of threads that '
        'take turns at chosen lines; settings and random state are compared around each call; non-trivial when the result holds an array')
THREADS = 6
LEFT = [True]
REQUIRE = sorted({n for m in MODS for n in importlib.import_module('checks.'+m).REQUIRE if '.' in n})+['replayed calls', 'edited calls', 'concurrent calls', 'near calls', 'interleaved calls', 'distinct interleavings']
ASSUME = ['the random shell is compared at the same seed', 'repetition is judged at 1e-9 of the largest entry',
          'calls longer than 0.4 s are not repeated']


def arrays(v, out=None):
    out = [] if out is None else out
    if isinstance(v, np.ndarray):
        out.append(v)
    elif isinstance(v, (list, tuple)):
        for x in v:
            arrays(x, out)
    elif isinstance(v, dict):
        for x in v.values():
            arrays(x, out)
    return out


def same(a, b, tol=0.):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype == object:
            return all(same(x, y, tol) for x, y in zip(a.ravel(), b.ravel()))
        if not tol:
            return np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc')
        s = np.abs(a[np.isfinite(a)]).max(initial=0.)
        return bool(np.all((np.abs(a-b) <= tol*s) | (a == b) | (np.isnan(a) & np.isnan(b))))
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (int, float, complex, np.number)) and isinstance(b, (int, float, complex, np.number)):
        return a == b or abs(a-b) <= tol*abs(a) or (a != a and b != b)
    return type(a) is type(b) and (a == b or not hasattr(a, '__eq__'))


def nothing(*_):
    pass


def quiet(fn, a, k):
    np.random.seed(12345)

    def late(*_):
        raise core.Hang()
    old = signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, 60)
    try:
        # a way of handling errors that nobody but this monitor would choose
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all='call', call=nothing):
            warnings.simplefilter('ignore')
            was = np.geterr(), list(warnings.filters)
            try:
                return fn(*a, **k)
            finally:
                LEFT[0] = was == (np.geterr(), list(warnings.filters))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Pure(core.Ctx):
    """runs another check's workload; its own verdicts are dropped, purity is judged in ctx."""

    def __init__(self, host, prop, log):
        super().__init__(prop, host.tier, host.seed, host.shard, host.shards, host.budget)
        self.host, self.log = host, log
        self.thorough = False

    def rounds(self, quick, thorough=None, name='r'):
        n = min(quick, self.host.pick(200, 1500))
        for i in range(n):
            if i % self.shards == self.shard:
                self.label = self.host.label = (self.prop, name, i)
                yield i, self.rng(name, i)

    def fail(self, *a, **k):
        pass

    def expect(self, cond, *a, **k):
        return bool(cond)

    def close(self, got, want, *a, **k):
        return np.shape(got) == np.shape(want)

    def edited(self, fn, a, k, tag, inp):
        """the caller changes his arrays in place and asks again: the answer is that of the new numbers."""
        h = self.host
        xs = [x for x in arrays([a, k]) if x.flags.writeable and x.dtype.kind in 'fc' and x.size]
        if not xs or h.events['edited '+tag] > h.pick(40, 400):
            return
        h.events['edited '+tag] += 1
        old = [x.copy() for x in xs]
        try:
            quiet(fn, a, k)
            for x in xs:
                x *= .75
            ans = []
            for b in ((a, k), copy.deepcopy((a, k))):
                try:
                    ans.append(quiet(fn, *b))
                except Exception as e:
                    ans.append(type(e).__name__)
            h.events['edited calls'] += 1
            h.expect(same(*ans, 1e-9), 'remembers old arguments:'+tag, f'{core.show(ans[0])} not {core.show(ans[1])}', inp)
        finally:
            for x, o in zip(xs, old):
                x[...] = o

    def call(self, fn, *a, _kind=None, _limit=60, _raises=None, **k):
        h = self.host
        mod = getattr(fn, '__module__', '') or ''
        lib = mod.startswith('newt.')
        tag = f'{mod.split(".")[-1]}.{getattr(fn, "__name__", fn)}'
        if not lib:
            return super().call(fn, *a, _kind=_kind, _limit=_limit, _raises=_raises, **k)
        before = copy.deepcopy((a, k))
        state = np.random.get_state()
        world = settings()
        t = time.time()
        try:
            v = quiet(fn, a, k)
            state_after = np.random.get_state()
        except Exception as e:
            # a refusal is judged by others; here it must leave the arguments alone
            h.events['refusals'] += 1
            h.expect(same((a, k), before), 'arguments changed:'+tag, 'by a call that raised', list(before[0]))
            np.random.set_state(state)
            return (True, e) if _raises and isinstance(e, _raises) else (False, None)
        took = time.time()-t
        h.expect(LEFT[0] and settings() == world, 'settings changed:'+tag, f'{world} then {settings()}', None)
        if 'random' not in tag:
            np.random.seed(12345)
            mine = np.random.get_state()
            h.expect(same(list(state_after), list(mine)), 'random numbers used or reseeded:'+tag, '', None)
        h.events[tag] += 1
        inp = {'args': list(before[0]), 'kwargs': before[1]}
        h.expect(same((a, k), before), 'arguments changed:'+tag, '', inp)
        res = arrays(v)
        h.expect(not any(np.shares_memory(x, y) for x in res for y in arrays([a, k])), 'result shares memory:'+tag, '', inp)
        h.case((tag, repr(core.show(list(a)))), bool(res), inp)
        keep = copy.deepcopy(v)
        if took < .4:
            # the result belongs to the caller: writing into it must not show in later answers
            for x in res:
                if x.flags.writeable and x.dtype != object:
                    x[...] = -7 if x.dtype.kind in 'iu' else 0 if x.dtype.kind == 'b' else np.nan
            try:
                w = quiet(fn, *before)
            except Exception as e:
                w = repr(e)
            h.events['repeated calls'] += 1
            h.expect(same(keep, w, 1e-9), 'not repeatable:'+tag, f'{core.show(keep)} then {core.show(w)}', inp)
            if took < .1:
                self.edited(fn, a, k, tag, inp)
            if took < .05 and not tag.startswith('read_multiFor'):
                n = self.log.setdefault(tag, [])
                # a sample of every function, each next to a call that differs only in the eighth digit
                if len(n) < h.pick(14, 80):
                    n.append((h.label, fn, before, keep))
                    near = nudge(before)
                    try:
                        n.append((h.label, fn, near, quiet(fn, *copy.deepcopy(near))))
                        h.events['near calls'] += 1
                    except Exception:
                        pass
        np.random.set_state(state)
        return True, keep


def nudge(v):
    """the same arguments, every real number off by a few parts in a hundred million."""
    if isinstance(v, np.ndarray) and v.dtype.kind in 'fc' or type(v) in (float, np.float64):
        return v*(1+3e-8)
    if isinstance(v, (list, tuple)):
        return type(v)(nudge(x) for x in v)
    if isinstance(v, dict):
        return {k: nudge(x) for k, x in v.items()}
    return copy.deepcopy(v)


def settings():
    """what a caller of a library expects to find as he left it."""
    return np.geterr(), np.get_printoptions(), os.getcwd(), decimal.getcontext().prec, tuple(sys.path)


def threads(ctx, todo):
    """the same calls again, from several threads at once."""
    todo = [t for t in todo if t[1].__name__ != 'spherical_random_shell']
    out = []
    lock = threading.Lock()
    start = threading.Barrier(THREADS)
    every = sys.getswitchinterval()
    sink = io.StringIO()

    def work(n):
        rng = np.random.default_rng((ctx.seed, ctx.shard, n))
        start.wait()
        # neighbours in the sorted log are calls of one function: those are the ones to collide
        at = int(rng.integers(max(1, len(todo))))
        for j in range(len(todo)):
            if time.time() > limit:
                break
            if rng.random() < .1:
                at = int(rng.integers(len(todo)))
            label, fn, (a, k), v = todo[(at+j) % len(todo)]
            b = copy.deepcopy((a, k))
            try:
                w = fn(*b[0], **b[1])
            except Exception as e:
                w = repr(e)
            good = same(v, w, 1e-9)
            with lock:
                ctx.events['concurrent calls'] += 1
                if not good:
                    out.append((label, fn, v, w, a))
    limit = time.time()+ctx.pick(5, 120)
    with contextlib.redirect_stdout(sink), warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        sys.setswitchinterval(2e-6)
        try:
            ts = [threading.Thread(target=work, args=(n,)) for n in range(THREADS)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(every)
    for label, fn, v, w, a in out[:20]:
        ctx.label = label
        ctx.fail('not reentrant:'+fn.__module__.split('.')[-1]+'.'+fn.__name__,
                 f'{core.show(v)} alone, {core.show(w)} among other threads', core.show(list(a)))


def scaled(v):
    """the same arguments, every array of numbers three quarters as large."""
    if isinstance(v, np.ndarray) and v.dtype.kind in 'fc':
        return v*.75
    if isinstance(v, (list, tuple)):
        return type(v)(scaled(x) for x in v)
    if isinstance(v, dict):
        return {k: scaled(x) for k, x in v.items()}
    return v*.75 if type(v) in (float, np.float64) else copy.deepcopy(v)


HOME = os.path.dirname(importlib.import_module('newt').__file__)


def interleave(jobs, rng, every):
    """run the calls as threads of which one at a time moves, handing over between lines of the library.

    Returns their answers and the list of places where the turn changed hands.
    """
    n = len(jobs)
    gates = [threading.Semaphore(0) for _ in jobs]
    alive = set(range(n))
    ans = [None]*n
    places = []
    wait = [int(rng.geometric(1/every))]

    def hand(me):
        others = sorted(alive-{me})
        if others:
            gates[others[int(rng.integers(len(others)))]].release()
        return bool(others)

    def work(me):
        def line(frame, event, arg):
            if event == 'line':
                wait[0] -= 1
                if wait[0] <= 0:
                    wait[0] = int(rng.geometric(1/every))
                    if len(alive) > 1:
                        places.append((me, frame.f_code.co_name, frame.f_lineno-frame.f_code.co_firstlineno))
                        hand(me)
                        gates[me].acquire()
            return line

        def enter(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(HOME) else None
        gates[me].acquire()
        fn, (a, k) = jobs[me]
        sys.settrace(enter)
        try:
            ans[me] = fn(*a, **k)
        except Exception as e:
            ans[me] = type(e).__name__
        finally:
            sys.settrace(None)
            alive.discard(me)
            hand(me)
    ts = [threading.Thread(target=work, args=(m,)) for m in range(n)]
    for t in ts:
        t.start()
    gates[int(rng.integers(n))].release()
    for t in ts:
        t.join()
    return ans, places


def schedules(ctx, log):
    """pairs of calls of one function, and of one module, under chosen interleavings."""
    rng = np.random.default_rng((ctx.seed, ctx.shard, 27))
    limit = time.time()+ctx.pick(25, 300)
    seen = set()
    tags = [t for t in sorted(log) if 'spherical_random_shell' not in t]
    tags = [tags[j] for j in rng.permutation(len(tags))]
    done = set()
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        turn = 0
        while time.time() < limit and turn < ctx.pick(6, 60):
            turn += 1
            for tag in tags:
                if time.time() > limit:
                    break
                label, fn, call, v = log[tag][int(rng.integers(len(log[tag])))]
                kind = int(rng.integers(3)) if tag in done else 0
                done.add(tag)
                if kind == 2:
                    kin = [t for t in tags if t.split('.')[0] == tag.split('.')[0]]
                    kin = log[kin[int(rng.integers(len(kin)))]]
                else:
                    kin = log[tag]
                mate = kin[int(rng.integers(len(kin)))]
                other, w = copy.deepcopy(mate[2]), mate[3]
                if kind == 0:
                    mate, other = (label, fn), scaled(call)
                    try:
                        b = copy.deepcopy(other)
                        w = fn(*b[0], **b[1])
                    except Exception as e:
                        w = type(e).__name__
                ans, places = interleave([(fn, copy.deepcopy(call)), (mate[1], other)], rng, float(rng.choice([2, 5, 15, 60])))
                ctx.events['interleaved calls'] += 2
                ctx.events['turns handed over'] += len(places)
                if places:
                    seen.add(hash((tag, tuple(places))))
                ctx.label = label
                for f, got, want in ((fn, ans[0], v), (mate[1], ans[1], w)):
                    ctx.expect(same(want, got, 1e-9), f'not reentrant:{f.__module__.split(".")[-1]}.{f.__name__}',
                               f'{core.show(want)} alone, {core.show(got)} interleaved with {mate[1].__name__} at {places[:6]}',
                               core.show(list(call[0])))
    ctx.events['distinct interleavings'] += len(seen)
    ctx.events['functions interleaved'] += len(done)


def replayer():
    """a process forked before any library call; replays calls sent to it in reverse order."""
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(w1)
            os.close(r2)
            with os.fdopen(r1, 'rb') as f:
                todo = pickle.load(f)
            out = []
            for label, fn, (a, k), v in todo:
                b = copy.deepcopy((a, k))
                try:
                    w = quiet(fn, *b)
                except Exception as e:
                    w = repr(e)
                if not same(v, w, 1e-9):
                    out.append((label, fn.__module__.split('.')[-1]+'.'+fn.__name__, core.show(v), core.show(w), core.show(list(a))))
            with os.fdopen(w2, 'wb') as f:
                pickle.dump((len(todo), out), f)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(r1)
    os.close(w2)
    return pid, w1, r2


def run(ctx):
    pid, w, r = replayer()
    log = {}
    for m in MODS:
        mod = importlib.import_module('checks.'+m)
        sub = Pure(ctx, m.upper(), log)
        mod.run(sub)
    todo = [x for k in sorted(log) for x in log[k]]
    rng = np.random.default_rng(ctx.seed)
    order = rng.permutation(len(todo))[::-1]
    with os.fdopen(w, 'wb') as f:
        pickle.dump([todo[j] for j in order], f)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    threads(ctx, todo)
    schedules(ctx, log)
    n, bad = pickle.loads(data)
    ctx.events['replayed calls'] += n
    for label, tag, v, w, a in bad:
        ctx.label = label
        ctx.fail('depends on history:'+tag, f'{v} then {w} in a fresh process', a)
