"""Gauss-Legendre point clouds."""
import numpy as np
import newt.gShapeGL as gg
from vrt import gen, solids, regions as rg
from checks.c04 import asp, ang

RULE = ('random dimensions, angles and node counts (3..24, unequal per direction) for the six '
        'Gauss-Legendre generators; every node of the bounding box is judged; the brick is '
        'integrated exactly on all monomials below degree 2n; non-trivial when nodes were judged')
NAMES = ['rectangle', 'sphere', 'annulus', 'cone', 'wedge', 'tri_prism']
QUICK = 4       # rounds of the quick tier are multiplied by this
REQUIRE = ['gShapeGL.'+n for n in NAMES]
ASSUME = ['nodes within 1e-7 of the surface may be either kept or dropped']


def make(name, rng, n3):
    s = gen.typed(rng, float(gen.scale(rng)))
    nx, ny, nz = n3
    if name == 'rectangle':
        a = [s*asp(rng) for _ in range(3)]
        return (*a, nx, ny, nz), rg.box(*a), n3
    if name == 'sphere':
        return (s, nx), rg.sphere(s), (nx,)*3
    if name == 'annulus':
        r1, t = float(rng.choice([0., rng.uniform(.05, .8), 10**rng.uniform(-4, -1)]))*s, s*asp(rng)
        return (r1, s, t, nx, nz), rg.wedge(r1, s, t), (nx, nx, nz)
    if name == 'wedge':
        r1, t, b = float(rng.choice([0., rng.uniform(.05, .7), 10**rng.uniform(-4, -1)]))*s, s*asp(rng), ang(rng)
        return (r1, s, t, b, nx, nz), rg.wedge(r1, s, t, b), (nx, nx, nz)
    if name == 'cone':
        H = s*asp(rng)
        return (s, H, nx, nz), rg.cone(0., s, H), (nx, nx, nz)
    d, t = s*asp(rng), s*asp(rng)
    y = [(-s, s), (0., s), (-s, 0.), (.4*s, 1.3*s), (-2*s, -.5*s), (-.3*s, 1.1*s)][int(rng.integers(6))]
    y = tuple(float(v*rng.uniform(.95, 1.05)) for v in y)
    return (d, *y, t, nx, ny, nz), rg.prism([(0, 0), (d, y[0]), (d, y[1])], -t/2, t/2), n3


def judge(ctx, name, mass, args, R, n3, pts):
    inp = {'shape': name, 'mass': mass, 'args': args}
    if not ctx.expect(isinstance(pts, np.ndarray) and pts.ndim == 2 and pts.shape[1] == 4 and len(pts) > 0
                      and np.isfinite(pts).all(), name+':form', repr(pts)[:100], inp):
        return
    ctx.close(np.sum(pts[:, 0]), mass, abs(mass), 1e-11, name+':mass', inp)
    ctx.expect(np.all(pts[:, 0]*np.sign(mass) > 0), name+':sign', 'a point has the wrong sign', inp)
    ctx.expect(np.all(R.g(pts[:, 1:]) <= R.margin()), name+':outside', 'points outside the solid', inp)
    ax = [solids.gl(R.lo[k], R.hi[k], n3[k]) for k in range(3)]
    G = np.stack(np.meshgrid(*[a[0] for a in ax], indexing='ij'), -1).reshape(-1, 3)
    W = (ax[0][1][:, None, None]*ax[1][1][None, :, None]*ax[2][1][None, None, :]).ravel()
    g = R.g(G)
    idx = np.zeros(len(pts), int)
    off = 0.
    for k in range(3):
        j = np.argmin(np.abs(pts[:, 1+k, None]-ax[k][0][None, :]), axis=1)
        off = max(off, float(np.max(np.abs(pts[:, 1+k]-ax[k][0][j]))/R.ext[k]))
        idx = idx*n3[k]+j
    ctx.close(off, 0., 1., 1e-8, name+':nodes', inp)
    cnt = np.bincount(idx, minlength=len(W))
    ctx.expect(cnt.max() <= 1, name+':duplicate', '', inp)
    miss = (g < -R.margin()) & (cnt == 0)
    ctx.expect(not miss.any(), name+':missing', f'{int(miss.sum())} nodes inside were dropped', inp)
    w = W[idx]
    ctx.close(pts[:, 0]/mass, w/w.sum(), w/w.sum(), 1e-9, name+':weights', inp)
    ctx.events['nodes judged'] += len(W)
    ctx.events['points'] += len(pts)
    x, m = pts[:, 1:], pts[:, 0]/mass
    n = min(n3)
    C = solids.com(R.cub)
    ctx.close(m @ x, C, R.ext, 1.5/n, name+':com', inp)
    e = np.sqrt(np.diag(solids.second(R.cub)))+R.ext/8
    ctx.close((x.T*m) @ x, solids.second(R.cub), np.outer(e, e), 6./n, name+':second-moments', inp)
    if name == 'rectangle':
        # exact for every monomial of degree < 2n in each direction
        h = R.ext/2
        for a in range(0, 2*n3[0], 1):
            b, c = int(ctx_rng.integers(2*n3[1])), int(ctx_rng.integers(2*n3[2]))
            want = np.prod([1/(p+1) if p % 2 == 0 else 0. for p in (a, b, c)])
            got = np.sum(m*(x[:, 0]/h[0])**a*(x[:, 1]/h[1])**b*(x[:, 2]/h[2])**c)
            ctx.close(got, want, 1., 1e-12, 'rectangle:monomials', [inp, (a, b, c)])


def run(ctx):
    global ctx_rng
    for i, rng in ctx.rounds(120*len(NAMES), 3000*len(NAMES)):
        ctx_rng = rng
        name = NAMES[i % len(NAMES)]
        n3 = tuple(int(v) for v in rng.integers(4 if name != 'rectangle' else 1, 22 if i % 9 else 30, 3))
        args, R, n3 = make(name, rng, n3)
        mass = float(gen.scale(rng)*rng.choice([1, 1, 1, -1]))
        ok, pts = ctx.call(getattr(gg, name), mass, *args)
        if ok:
            judge(ctx, name, mass, args, R, n3, pts)
            ctx.case((name, mass, args), True, {'shape': name, 'args': args, 'points': len(pts)})
