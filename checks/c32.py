"""Units: the library knows no kilogram and no metre."""
import importlib
import numpy as np
from vrt import core, echo

MODS = ['c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c11', 'c12', 'c13', 'c14', 'c15', 'c17',
        'c18', 'c19', 'c30']
RULE = ('every call that the workloads of C01..C09, C11..C15, C17..C19 and C30 make is made again with masses times 2^a and '
        'lengths times 2^b, drawn anew each time, and the answers compared after scaling back; every case counts')
NAMES = [f'{m}.{f}' for m, s in echo.SPEC.items() for f in s]
REQUIRE = NAMES
ASSUME = ['the numerical integrators (qlmNum, bigQlmNum) stop at an absolute tolerance and are not scale free; C10 and '
          'C11 judge them', 'answers that overflow or underflow in either unit are not compared']


def unit(kind, x, m, s):
    """a number, array or table expressed in other units (mass unit 1/m, length unit 1/s)."""
    if kind in 'n':
        return x
    if kind == 'M':
        return x*m
    if kind == 'D':
        return x*(m/s**3)
    if kind in 'LVX':
        return x*s
    if kind == 'K':
        return x/s
    if kind == 'y':
        return x*m
    if kind == 'f':
        return x*(m*m/s**2)
    if kind in 'tT':
        return x*(m*m/s)
    if kind in 'Pp':
        return x*np.array([m, s, s, s])
    if kind == 'R':
        return x*np.array([s, 1., s])
    if kind in 'qQ':
        l = np.arange(len(x))
        return x*(m*s**(l if kind == 'q' else -1.-l))[:, None]
    raise AssertionError(kind)


def matrix(kind, x, s):
    """coaxial matrices: l' (row) from l (column), both counted from m."""
    out = []
    for m, a in enumerate(x):
        l = np.arange(m, m+len(a), dtype=float)
        e = {'a': l[:, None]-l, 'b': l-l[:, None], 'c': -(l[:, None]+l+1)}[kind]
        out.append(a*s**e)
    return out


def results(kinds, v, m, s):
    if kinds[0] in 'abc':
        return matrix(kinds[0], v, s)
    v = echo.flat(v) if len(kinds) == 1 else v
    return [unit(k, np.asarray(y), m, s) for k, y in zip(kinds*len(v), v)]


def judge(h, tag, fn, args, kinds, res):
    rng = h.units
    if h.events[tag] > h.pick(60, 1500):
        return
    deg = max([len(x) for x, k in zip(args, kinds) if k in 'qQ']+[x for x, k in zip(args[:1], kinds[:1]) if k == 'n' and not isinstance(x, np.ndarray)]+[0])
    top = min(60, 300/(deg+4))
    b = int(round(rng.uniform(-top, top))) or int(rng.choice([-1, 1]))
    a = int(rng.integers(-80, 81))
    m, s = 2.**a, 2.**b
    try:
        v = echo.quiet(fn, args)
    except (Exception, echo.Late):
        h.events['refused'] += 1
        return
    try:
        w = echo.quiet(fn, [unit(k, x, m, s) for k, x in zip(kinds, args)])
    except (Exception, echo.Late) as e:
        h.fail('refused in other units:'+tag, repr(e), {'args': args, 'mass': m, 'length': s})
        return
    # what the answer must be there, and whether all of it fits between the smallest and largest numbers
    for x in echo.flat(w)+results(res, v, m, s)+echo.flat(v):
        x = echo.rows(x)
        if np.any((x > 1e200) | (x < 1e-200) & (x != 0)):
            h.events['extreme'] += 1
            return
    v, w = results(res, v, 1., 1.), results(res, w, 1/m, 1/s)
    h.events[tag] += 1
    h.case((tag, core.show(list(args)).__repr__()), True, {'args': args, 'mass': m, 'length': s})
    got = echo.agree(w, v, echo.near(rng, fn, args, kinds), columns=res[0] in 'PR')
    h.margins[tag] = max(h.margins.get(tag, 0.), got)
    h.expect(got <= 1, 'depends on units:'+tag, f'off by {got:.3g} allowances: {core.show(w[0])} not {core.show(v[0])}',
             {'args': args, 'mass': m, 'length': s})


def run(ctx):
    ctx.units = ctx.rng('units', ctx.shard)
    for m in MODS:
        importlib.import_module('checks.'+m).run(echo.Echo(ctx, m.upper(), judge))
