"""Inner and outer mass moments of point arrays."""
import numpy as np
import newt.pg2Multi as pg
from vrt import gen, harm

RULE = ('random and hostile point arrays (poles, planes, axes, origin points anywhere in the array, '
        'negative masses, 1..40000 points, scales 1e-12..1e8), every (l,m) up to degree 0..80; '
        'whole-table and single-moment routines; non-trivial when a moment beyond the monopole is nonzero')
QUICK = 3       # rounds of the quick tier are multiplied by this
REQUIRE = ['pg2Multi.'+n for n in ('qmoments', 'qmoment', 'Qmomentsb', 'Qmomentb')]
ASSUME = ['points within 1e-8 rad of the z axis are judged at the accuracy of arccos']


def amp(p):
    """loss of accuracy of arccos(z/r) near the poles."""
    r = np.sqrt((p[:, 1:4]**2).sum(1))
    r = np.where(r == 0, 1., r)
    s = np.hypot(p[:, 1], p[:, 2])/r
    return 1/np.maximum(s, 3e-9)


def cloud(ctx, rng, i, L, outer=False):
    # every scale whose highest moment is far from under- or overflow
    e = min(12., (250. if L < 29 else 120.)/(L+2))
    s = gen.scale(rng, -e, min(e, 8)) if i % 3 == 0 else gen.scale(rng, -1, 1)
    n = int(rng.integers(1, 30)) if i % 25 else 3000 if i % 4 or L > 12 else int(10**rng.uniform(3.8, 4.6))
    c = i % 7
    if c == 0:
        p = gen.special_points(rng, n, s)
    elif c == 1 and not outer:
        p = gen.points(rng, n, s)
        k = rng.random(n) < .4
        k[int(rng.integers(n))] = True
        p[k, 1:] = rng.choice([0., -0.], (int(k.sum()), 3))
    elif c == 2:
        p = gen.points(rng, n, s)
        p[:, 1:3] *= 10**rng.uniform(-9, -3)
    elif c == 3:
        p = gen.points(rng, n, s)
        p[:, 1+int(rng.integers(3))] = 0
    elif c == 4:
        p = gen.points(rng, n, s, center=s*10**rng.uniform(0, min(3., 120./(L+2)))*gen.direction(rng))
    else:
        p = gen.points(rng, n, s)
    if outer:
        r = np.sqrt((p[:, 1:]**2).sum(1))
        p[r < 1e-3*s, 1:] += s*np.array([.3, -.2, .4])
    return p


def run(ctx):
    for i, rng in ctx.rounds(700, 14000):
        L = int(rng.integers(0, 11)) if i % 6 else int(rng.integers(11, 29))
        if i % 40 == 39:
            L = int(rng.integers(29, 81))
        p = cloud(ctx, rng, i, L)
        arr = gen.layout(rng, p)
        inp = {'L': L, 'points': p}
        want = harm.inner(L, p[:, 1:], p[:, 0])
        r = np.sqrt((p[:, 1:]**2).sum(1))
        A = amp(p)
        sc = np.array([np.sum(np.abs(p[:, 0])*r**l*(1+l*A)) if l else np.sum(np.abs(p[:, 0])) for l in range(L+1)])
        sc = sc*np.sqrt((2*np.arange(L+1)+1))
        ok, q = ctx.call(pg.qmoments, L, arr)
        if ok:
            ctx.close(q, want, sc[:, None], 3e-14, 'inner:table', inp)
            ctx.case((L, p), L > 0 and np.abs(want[1:]).max() > 0, {'L': L, 'n': len(p)})
        l = int(rng.integers(0, L+1))
        m = int(rng.integers(-l, l+1))
        ok, v = ctx.call(pg.qmoment, l, m, arr)
        if ok:
            ctx.close(v, want[l, L+m], sc[l], 3e-14, 'inner:single', {'l': l, 'm': m, **inp})
        # additivity and order, by the code alone
        if ok and i % 5 == 0 and len(p) > 1:
            h = int(rng.integers(1, len(p)))
            ok1, a = ctx.call(pg.qmoments, L, p[:h])
            ok2, b = ctx.call(pg.qmoments, L, p[h:][::-1])
            if ok1 and ok2:
                ctx.close(a+b, want, sc[:, None], 3e-14, 'inner:additive', inp)
        # outer
        p = cloud(ctx, rng, i, L, True)
        r = np.sqrt((p[:, 1:]**2).sum(1))
        arr = gen.layout(rng, p)
        inp = {'L': L, 'points': p}
        want = harm.outer(L, p[:, 1:], p[:, 0])
        A = amp(p)
        sc = np.array([np.sum(np.abs(p[:, 0])*r**-(l+1.)*(1+l*A)) for l in range(L+1)])
        sc = sc*np.sqrt((2*np.arange(L+1)+1))
        ok, q = ctx.call(pg.Qmomentsb, L, arr)
        if ok:
            ctx.close(q, want, sc[:, None], 3e-14, 'outer:table', inp)
            ctx.case(('o', L, p), L > 0)
        ok, v = ctx.call(pg.Qmomentb, l, m, arr)
        if ok:
            ctx.close(v, want[l, L+m], sc[l], 3e-14, 'outer:single', {'l': l, 'm': m, **inp})
