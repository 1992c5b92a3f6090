"""Re-running other checks' workloads under metamorphic monitors: what every argument of a routine is
(mass, length, table, ...), the interceptor, and a tolerance taken from the conditioning of the call itself."""
import contextlib
import inspect
import io
import signal
import time
import warnings
import numpy as np
from vrt import core

# n plain number, M mass, D density, L length, P rows of mass x y z, p one such row, q inner and Q outer
# moments, V vector of lengths, X rows of lengths, R rows radius-angle-height, t tables of torques, a any
SPEC = {
    'qlm': {'sphere': 'nML q', 'cylinder': 'nMLL q', 'annulus': 'nMLLLnn q', 'cone': 'nMLLnn q',
            'tri_iso_prism': 'nMLLLn q', 'tri_iso_prism2': 'nMLLnn q', 'tri_prism': 'nMLLLL q',
            'rect_prism': 'nMLLLn q', 'ngon_prism': 'nMLLnn q', 'tetrahedron': 'nMLLL q',
            'tetrahedron2': 'nMLLLL q', 'pyramid': 'nMLLL q'},
    'qlmACH': {'rect_prism': 'nDLLL q', 'annulus': 'nDLLLnn q', 'cone': 'nDLLL q', 'cone2': 'nDLLL q',
               'tri_prism': 'nDLLLL q', 'trapezoid': 'nDLLLL q', 'cylindrical_section': 'nDLLL q',
               'tetrahedron': 'nDLLL q', 'cylhole': 'nDLL q', 'cylhole2': 'nDLL q', 'platehole': 'nDLLn q',
               'pyramid': 'nDLLL q'},
    'bigQlm': {'sphere': 'nDLLLL Q', 'annulus': 'nDLLLnn Q'},
    'pg2Multi': {'qmoments': 'nP q', 'Qmomentsb': 'nP Q', 'imoments': 'nLP y'},
    'glib': {'gmmr2_array': 'pP f', 'yukawa_array': 'pPnL f', 'point_matrix_gravity': 'PP fT',
             'point_matrix_yukawa': 'PPnL fT', 'translate_point_array': 'PV P', 'rotate_point_array': 'PnV P'},
    'glibShapes': {'cart_2_cyl': 'X R', 'cyl_2_cart': 'R X', 'sphere': 'MLn P', 'rectangle': 'MLLLnnn P', 'annulus': 'MLLLnn P',
                   'cone': 'MLLnnn P', 'wedge': 'MLLLnnn P', 'trapezoid': 'MLLLnnn P', 'outer_cone': 'MLLLnnn P',
                   'tri_prism': 'MLLLLnnn P', 'tetrahedron': 'MLLLLnnn P', 'ngon_prism': 'MLLnnn P',
                   'pyramid': 'MLLLnnn P', 'cylhole': 'MLLnn P', 'platehole': 'MLLnnnn P'},
    'gShapeGL': {'rectangle': 'MLLLnnn P', 'sphere': 'MLn P', 'annulus': 'MLLLnn P', 'cone': 'MLLnn P',
                 'wedge': 'MLLLnnn P', 'tri_prism': 'MLLLLnnn P'},
    'translations': {'translate_qlm': 'qV q', 'translate_Qlmb': 'QV Q', 'translate_q2Q': 'qV Q'},
    'translationRecurs': {'translate_qlm': 'qV q', 'translate_Qlmb': 'QV Q', 'translate_q2Q': 'qV Q',
                          'transl_newt_z_RR': 'nL a', 'transl_newt_z_SS': 'nL b', 'transl_newt_z_SR': 'nL c',
                          'transl_yuk_z_RR_recurs': 'nLK n', 'transl_yuk_z_SR_recurs': 'nLK n'},
    'rotations': {'rotate_qlm': 'qnnn q', 'wignerDl': 'nnnn n', 'dlmn': 'nn n', 'Dl': 'nnnn n'},
    'multipoleLib': {'multipole_force': 'nqQLLLn f', 'multipole_force_m': 'nqQLLLn f', 'torque_lm': 'qQn ttt',
                     'torque': 'qQnVnn ttt', 'embed_qlm': 'qn q', 'torques_at_angle': 'ttnn t'},
}


class Late(BaseException):
    pass


def spec(fn, args):
    """([kind of each argument], [kind of each result]) or None."""
    mod = fn.__module__.split('.')[-1]
    s = SPEC.get(mod, {}).get(fn.__name__)
    if s is None:
        return None
    a, r = s.split()
    a = list(a)
    if fn.__name__ == 'torque' and args[4] == 'inner-outer':
        a[1] = 'q'
    return a[:len(args)], list(r)


def real(v):
    """as double precision, so that how a number was typed is not at issue here."""
    if isinstance(v, (bool, str)) or v is None:
        return v
    if isinstance(v, (list, tuple)):
        return np.array(v, float)
    if isinstance(v, np.ndarray):
        return v.astype(complex if v.dtype.kind == 'c' else float)
    return float(v)


def quiet(fn, a, limit=20):
    def late(*_):
        raise Late()
    old = signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            return fn(*a)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def flat(v):
    """list of arrays."""
    if isinstance(v, (list, tuple)):
        return [x for y in v for x in flat(y)]
    return [np.asarray(v)]


def jitter(rng, v, e=1e-13):
    """every real number off by a part in ten million million."""
    if isinstance(v, np.ndarray) and v.dtype.kind in 'fc':
        return v*(1+e*rng.uniform(-1, 1, v.shape))
    return v*(1+e*rng.uniform(-1, 1)) if type(v) is float else v


def near(rng, fn, args, kinds, n=3, e=1e-13):
    """answers to the same question with every dimensional number slightly off."""
    out = []
    for _ in range(n):
        b = [jitter(rng, x, e) if k != 'n' else x for x, k in zip(args, kinds)]
        try:
            out.append(flat(quiet(fn, b)))
        except (Exception, Late):
            pass
    return out


def rows(x):
    """largest entry of every row, shaped to compare against the array."""
    x = np.abs(np.asarray(x))
    if x.ndim == 0:
        return x
    if x.ndim == 1:
        return np.full(x.shape, x.max(initial=0.))
    return np.broadcast_to(x.reshape(len(x), -1).max(1, initial=0.).reshape((-1,)+(1,)*(x.ndim-1)), x.shape)


def agree(got, want, around, rel=1e-10, more=(), columns=False):
    """worst ratio of difference to what is allowed: rel of the row and thirty times what the last digits do."""
    worst = 0.
    if columns:
        got, want, around = ([x.T for x in got], [x.T for x in want], [[x.T for x in y] for y in around])
    for j, (g, w) in enumerate(zip(got, want)):
        if np.shape(g) != np.shape(w):
            return np.inf
        allow = rel*rows(w)+1e-290
        for x in around:
            if len(x) == len(want) and np.shape(x[j]) == np.shape(w):
                allow = allow+30*rows(np.nan_to_num(x[j]-w))
        for x in more:
            allow = allow+rel*rows(x[j])
        with np.errstate(all='ignore'):
            d = np.abs(g-w)
            bad = np.where((g == w) | (np.isnan(g) & np.isnan(w)), 0., d/allow)
        worst = max(worst, float(np.nan_to_num(bad, nan=np.inf).max(initial=0.)))
    return worst if len(got) == len(want) else np.inf


class Echo(core.Ctx):
    """runs another check's workload; its verdicts are dropped, `judge` looks at every known call."""
    share = 400, 2400

    def __init__(self, host, prop, judge):
        super().__init__(prop, host.tier, host.seed, host.shard, host.shards, host.budget)
        self.host, self.judge = host, judge
        self.thorough = False
        if prop in ('C08', 'C09'):
            # twelve solids to a round
            self.share = 1650, 9000

    def rounds(self, quick, thorough=None, name='r'):
        n = min(quick, self.host.pick(*self.share))
        for i in range(n):
            if i % self.shards == self.shard:
                self.label = self.host.label = (self.prop, name, i)
                yield i, self.rng(name, i)

    def fail(self, *a, **k):
        pass

    def expect(self, cond, *a, **k):
        return bool(cond)

    def close(self, got, want, *a, **k):
        return np.shape(got) == np.shape(want)

    def call(self, fn, *a, _kind=None, _limit=60, _raises=None, **k):
        if (getattr(fn, '__module__', '') or '') in ('newt.qlmNum', 'newt.bigQlmNum'):
            return False, None
        t = time.time()
        r = super().call(fn, *a, _kind=_kind, _limit=_limit, _raises=_raises, **k)
        if r[0] and _raises is None and time.time()-t < .15 and (getattr(fn, '__module__', '') or '').startswith('newt.'):
            try:
                b = inspect.signature(fn).bind(*a, **k)
                b.apply_defaults()
                args = list(b.args)
                sp = spec(fn, args)
            except TypeError:
                sp = None
            if sp:
                tag = f'{fn.__module__.split(".")[-1]}.{fn.__name__}'
                args = [real(x) if q != 'n' else x for x, q in zip(args, sp[0])]
                self.judge(self.host, tag, fn, args, sp[0], sp[1])
        return r
