"""Octave: spherical harmonics and inner moments of point arrays."""
import numpy as np
from vrt import harm, octave
from checks.c06 import amp, cloud

RULE = ('random and hostile point arrays (axes, planes, origin, scales 1e-12..1e8), degree 0..20, single moments and '
        'summaries; harmonics on random and special angles incl. multi-turn azimuths; judged by the Cartesian '
        'recursion for solid harmonics; non-trivial when l > 0')
QUICK = 5       # rounds of the quick tier are multiplied by this
REQUIRE = ['octave.'+n for n in ('computeMoments', 'computeMomentSummary', 'YLM')]
ASSUME = ['orders m >= 0, polar angles in [0, pi]', 'points within 1e-8 rad of the z axis judged at the accuracy of arccos']


def run(ctx):
    b = octave.Batch(ctx)
    for i, rng in ctx.rounds(400, 5000):
        l = int(rng.integers(0, 21 if i % 4 == 0 else 8))
        p = cloud(ctx, rng, i if i % 25 else 1, max(l, 8))
        m = int(rng.integers(0, l+1))
        b.add('computeMoments', l, m, p, tag=('one', l, m, p))
        if i % 2:
            L = int(rng.integers(1, 9))
            b.add('computeMomentSummary', L, p[:12], tag=('sum', L, 0, p[:12]))
        n = int(rng.integers(1, 30))
        th = np.arccos(rng.uniform(-1, 1, n))
        ph = rng.uniform(-20, 20, n)
        if i % 3 == 0:
            th = rng.choice([0, np.pi, np.pi/2, np.pi/4, 1e-3, np.pi-1e-3], n)
            ph = rng.choice([0, np.pi, -np.pi/2, np.pi/2, 7*np.pi], n)
        b.add('YLM', l, m, th[:, None], ph[:, None], tag=('ylm', l, m, np.column_stack([th, ph])))
    ctx.label = None
    for tag, ok, v in b.run():
        kind, l, m, p = tag
        inp = {'call': kind, 'l': l, 'm': m, 'input': p}
        if not ok:
            ctx.fail(kind+':exception', v, inp)
            continue
        if kind == 'ylm':
            th, ph = p.T
            u = np.column_stack([np.sin(th)*np.cos(ph), np.sin(th)*np.sin(ph), np.cos(th)])
            w = harm.solid(l, u)[l, l+m]
            a = 1/np.maximum(np.abs(np.sin(th)), 3e-9)
            ctx.close(v[0].ravel(), w, np.sqrt(2*l+1)*(1+l*a+m*np.abs(ph)), 1e-14, 'harmonic', inp)
            ctx.case(('y', l, m, p), l > 0)
            continue
        r = np.sqrt((p[:, 1:]**2).sum(1))
        A = amp(p)
        want = harm.inner(l, p[:, 1:], p[:, 0])
        sc = np.array([np.sum(np.abs(p[:, 0])*(r**k*(1+k*A) if k else 1)) for k in range(l+1)])
        sc = sc*np.sqrt(2*np.arange(l+1)+1)
        if kind == 'one':
            if ctx.expect(v[0].size == 1, 'moment:shape', v[0].shape, inp):
                ctx.close(v[0].ravel()[0], want[l, l+m], sc[l], 1e-13, 'moment', inp)
            ctx.case((l, m, p), l > 0, {'l': l, 'm': m, 'points': len(p)})
        else:
            rows = [(k, n) for k in range(1, l+1) for n in range(k+1)]
            if ctx.expect(v[0].shape == (len(rows), 3), 'summary:rows', v[0].shape, inp):
                ctx.expect(all(tuple(x) == y for x, y in zip(v[0][:, :2].real, rows)), 'summary:labels', v[0][:, :2], inp)
                ctx.close(v[0][:, 2], np.array([want[k, l+n] for k, n in rows]), np.array([sc[k] for k, n in rows]),
                          1e-13, 'summary:moment', inp)
            ctx.case(('s', l, p), True)
