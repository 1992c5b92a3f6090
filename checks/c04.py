"""Uniform point-mass clouds fill the solid they are documented to fill."""
import numpy as np
import newt.glibShapes as gs
from vrt import gen, solids, regions as rg

RULE = ('random dimensions (aspect ratios 1/8..8, scales 1e-3..1e3, any subtended angle, skew and '
        'one-sided triangles) and odd/even/unequal grid counts per direction for 15 cloud '
        'generators; every point and every empty cell of the grid is judged against the solid; '
        'non-trivial when the grid has both filled and empty cells or the solid is a box')
QUICK = 5       # rounds of the quick tier are multiplied by this
REQUIRE = ['glibShapes.'+n for n in
           ('sphere', 'rectangle', 'annulus', 'cone', 'wedge', 'trapezoid', 'outer_cone', 'tri_prism',
            'tetrahedron', 'ngon_prism', 'pyramid', 'cylhole', 'platehole', 'spherical_random_shell',
            'cart_2_cyl', 'cyl_2_cart')]
ASSUME = ['cells whose centre is within 1e-7 of the surface may be either filled or empty',
          'the random shell is judged at 6.5 standard deviations']


def asp(rng):
    return gen.typed(rng, float(2**rng.uniform(-3, 3) if rng.random() < .85 else 10**rng.uniform(-4, 4)))


def ang(rng, top=np.pi):
    c = rng.integers(6)
    if c == 0:
        return top
    if c == 1:
        return min(top, np.pi/2)*(1 if top > np.pi/2 else .99)
    if c == 2:
        return float(10**rng.uniform(-4, -.6))
    return min(top, gen.typed(rng, float(rng.uniform(.25, top*.98))))


def make(name, rng, n3):
    """-> args after mass, region, grid counts (nx,ny,nz), box slack."""
    s = gen.typed(rng, float(gen.scale(rng, -3, 3)))
    nx, ny, nz = n3
    if name == 'sphere':
        return (s, nx), rg.sphere(s), (nx, nx, nx)
    if name == 'rectangle':
        a = [s*asp(rng) for _ in range(3)]
        return (*a, nx, ny, nz), rg.box(*a), n3
    if name == 'annulus':
        r1 = float(rng.choice([0., rng.uniform(.05, .8), 10**rng.uniform(-4, -1)]))*s
        t = s*asp(rng)
        return (r1, s, t, nx, nz), rg.wedge(r1, s, t), (nx, nx, nz)
    if name == 'wedge':
        r1 = float(rng.choice([0., rng.uniform(.05, .7), 10**rng.uniform(-4, -1)]))*s
        t, b = s*asp(rng), ang(rng)
        return (r1, s, t, b, nx, nz), rg.wedge(r1, s, t, b), (nx, nx, nz)
    if name == 'cone':
        H, b = s*asp(rng), ang(rng)
        return (s, H, b, nx, nz), rg.cone(0., s, H, b), (nx, nx, nz)
    if name == 'outer_cone':
        r1 = float(rng.choice([0., rng.uniform(.05, .7), rng.uniform(.05, .7)]))*s
        H, b = s*asp(rng), ang(rng)
        return (r1, s, H, b, nx, nz), rg.cone(r1, s, H, b), (nx, nx, nz)
    if name == 'trapezoid':
        r1, b, t = rng.uniform(.0, .7)*s, float(rng.uniform(.2, 1.4) if rng.random() < .7 else 10**rng.uniform(-4, -.7)), s*asp(rng)
        c, d = np.cos(b), np.sin(b)
        poly = [(s*c, -s*d), (s*c, s*d), (r1*c, r1*d), (r1*c, -r1*d)]
        return (r1, s, t, b, nx, nz), rg.prism(poly, -t/2, t/2), (nx, nx, nz)
    if name in ('tri_prism', 'tetrahedron'):
        d = s*asp(rng)
        y = np.sort(rng.uniform(-2, 2, 2)*s)
        if y[1]-y[0] < .5*s:
            y[1] = y[0]+.5*s
        c = rng.integers(4)
        if c == 0:
            y = np.array([-s, s])
        elif c == 1:
            y = np.array([0., s])
        # keep the solid fat enough in its box for the grid to see it
        w = max(0, y[1])-min(0, y[0])
        if y[1]-y[0] < .4*w:
            y = np.array([-.4*s, 1.3*s])
        y = [float(v) for v in y]
        z = s*asp(rng)
        if name == 'tri_prism':
            R = rg.prism([(0, 0), (d, y[0]), (d, y[1])], -z/2, z/2)
        else:
            R = rg.tet((d, y[0], 0), (d, y[1], 0), (0, 0, 0), (0, 0, z))
        return (d, *y, z, nx, ny, nz), R, n3
    if name == 'ngon_prism':
        N, H = int(rng.integers(3, 9)) if rng.random() < .8 else int(rng.integers(9, 40)), s*asp(rng)
        return (H, s, N, nx, nz), rg.ngon(H, s, N), (nx, nx, nz)
    if name == 'pyramid':
        a = [s*asp(rng) for _ in range(3)]
        return (*a, nx, ny, nz), rg.pyramid(*a), n3
    if name == 'cylhole':
        R = s*float(rng.choice([1.05, rng.uniform(1.1, 4), 10**rng.uniform(.6, 3)]))
        return (s, R, nx, nz), rg.cylhole(s, R), (nx, nx, nz)
    if name == 'platehole':
        t, th = s*asp(rng), float(rng.choice([0., rng.uniform(-1.1, 1.1), rng.uniform(-.6, -.1)]))
        if abs(t*np.tan(th)) > 4*s:
            t = 2*s*float(rng.random())/abs(np.tan(th))      # else its cells are wider than the hole
        return (t, s, th, nx, ny, nz), rg.platehole(t, s, th), n3


NAMES = ['sphere', 'rectangle', 'annulus', 'wedge', 'cone', 'outer_cone', 'trapezoid', 'tri_prism',
         'tetrahedron', 'ngon_prism', 'pyramid', 'cylhole', 'platehole']


def lattice(x, ext):
    """sorted distinct coordinates and their spacing."""
    u = np.sort(x)
    u = u[np.concatenate([[True], np.diff(u) > 1e-6*ext])]
    return u, (np.min(np.diff(u)) if len(u) > 1 else None)


def judge(ctx, name, mass, args, R, n3, pts, kind):
    inp = {'shape': name, 'mass': mass, 'args': args}
    if not ctx.expect(isinstance(pts, np.ndarray) and pts.ndim == 2 and pts.shape[1] == 4 and len(pts) > 0
                      and np.isfinite(pts).all(), kind+':form', repr(pts)[:100], inp):
        return False
    ctx.close(np.sum(pts[:, 0]), mass, abs(mass), 1e-11, kind+':mass', inp)
    ctx.close(pts[:, 0], np.full(len(pts), mass/len(pts)), abs(mass)/len(pts), 1e-11, kind+':equal-masses', inp)
    ctx.expect(np.all(R.g(pts[:, 1:]) <= R.margin()), kind+':outside', 'points outside the solid', inp)
    axes, h = [], []
    for k in range(3):
        u, hk = lattice(pts[:, 1+k], R.ext[k])
        if hk is None:
            if n3[k] != 1:
                return True
            # a single layer: one cell as thick as the solid
            hk = R.ext[k]
        axes.append(u)
        h.append(hk)
    h = np.array(h)
    # requested number of cells spans the solid (a little more where the grid
    # covers a circumscribed circle)
    spans = h*np.array(n3)/R.ext
    ctx.expect(np.all(spans > 1-1e-6) and np.all(spans < 1.42), kind+':grid-count',
               f'spacing*n/extent = {spans}', inp)
    # cells tile the box of the solid, or are centred where the box is larger
    o = np.array([a[0] for a in axes])
    off = np.where(np.abs(spans-1) < 1e-6, (o-R.lo)/h-.5, 2*o/h)
    ctx.expect(np.all(np.abs(off-np.round(off)) < 1e-5), kind+':alignment',
               f'grid offset {off} cells', inp)
    ctx.events['points'] += len(pts)
    # extend the observed grid over the whole solid
    full, idx = [], np.zeros((len(pts), 3), int)
    for k in range(3):
        o = axes[k][0]
        a = int(np.floor((R.lo[k]-o)/h[k]))-1
        b = int(np.ceil((R.hi[k]-o)/h[k]))+1
        j = (pts[:, 1+k]-o)/h[k]
        ctx.expect(np.all(np.abs(j-np.round(j)) < 1e-5), kind+':spacing', f'axis {k} is not evenly spaced', inp)
        idx[:, k] = np.round(j).astype(int)-a
        full.append(o+h[k]*np.arange(a, b+1))
    G = np.stack(np.meshgrid(*full, indexing='ij'), -1)
    g = R.g(G.reshape(-1, 3)).reshape(G.shape[:3])
    cnt = np.zeros(g.shape, int)
    if not ctx.expect((idx >= 0).all() and (idx < np.array(g.shape)).all(), kind+':outside', 'off the grid', inp):
        return False
    np.add.at(cnt, tuple(idx.T), 1)
    ctx.expect(cnt.max() <= 1, kind+':duplicate', f'{int((cnt > 1).sum())} cells hold several points', inp)
    miss = (g < -R.margin()) & (cnt == 0)
    ctx.events['cells judged'] += g.size
    ctx.expect(not miss.any(), kind+':missing', f'{int(miss.sum())} of {int((g < 0).sum())} cells inside are empty', inp)
    # and the cloud has the solid's first and second moments
    x = pts[:, 1:]
    c = x.mean(0)
    C = solids.com(R.cub)
    ctx.close(c, C, h+R.ext/min(n3), 1.5, kind+':com', inp)
    S = x.T @ x/len(x)
    W = solids.second(R.cub)
    e = np.sqrt(np.diag(W))+R.ext/8
    ctx.close(S, W, np.outer(e, e), 6./min(n3), kind+':second-moments', inp)
    return True


def shell(ctx, rng):
    m, r = gen.scale(rng)*rng.choice([-1, 1]), gen.scale(rng)
    N = int(rng.choice([30, 300, 4000, 40000]))
    np.random.seed(int(rng.integers(2**31)))
    ok, p = ctx.call(gs.spherical_random_shell, m, r, N)
    if not ok:
        return
    inp = {'mass': m, 'r': r, 'N': N}
    if not ctx.expect(np.ndim(p) == 2 and p.shape[1] == 4 and len(p) > 0, 'shell:form', '', inp):
        return
    n = len(p)
    ctx.expect(abs(n-N) <= 6.5*np.sqrt(N*.2146)+2, 'shell:count', f'{n} points', inp)
    ctx.close(np.sum(p[:, 0]), m, abs(m), 1e-11, 'shell:mass', inp)
    ctx.close(p[:, 0], np.full(n, m/n), abs(m)/n, 1e-11, 'shell:equal-masses', inp)
    ctx.close(np.sqrt((p[:, 1:]**2).sum(1)), np.full(n, r), r, 1e-12, 'shell:radius', inp)
    u = p[:, 1:]/r
    ctx.close(u.mean(0), np.zeros(3), 6.5/np.sqrt(3*n), 1., 'shell:isotropy', inp)
    ctx.close(u.T @ u/n, np.eye(3)/3, 6.5*.3/np.sqrt(n), 1., 'shell:isotropy', inp)
    # z and azimuth are uniform
    for v in ((np.sort(u[:, 2])+1)/2, np.sort(np.arctan2(u[:, 1], u[:, 0]) % (2*np.pi))/(2*np.pi),
              (np.sort(u[:, 0])+1)/2, (np.sort(u[:, 1])+1)/2, (np.sort(u @ gen.direction(rng))+1)/2):
        ks = np.max(np.abs(v-(np.arange(n)+.5)/n))
        ctx.close(ks, 0., 1/np.sqrt(n), 3.2, 'shell:distribution', inp)
        # no empty band or cap: P(gap > g) < (n+1) exp(-g n)
        gap = np.max(np.diff(np.concatenate([[0.], v, [1.]])))
        ctx.expect(gap < (np.log(n)+25)/n, 'shell:empty-region', f'gap {gap} with {n} points', inp)
    ok, p2 = ctx.call(gs.spherical_random_shell, m, r, N)
    if ok:
        ctx.expect(p2.shape != p.shape or not np.array_equal(p, p2), 'shell:not-random', '', inp)


def coords(ctx, rng):
    n = int(rng.integers(1, 60))
    s = gen.scale(rng, -6, 6)
    x = rng.normal(size=(n, 3))*s
    z = rng.random((n, 3)) < .15
    x[z] = rng.choice([0., -0.], int(z.sum()))
    ok, q = ctx.call(gs.cart_2_cyl, np.asfortranarray(x) if rng.random() < .5 else x)
    inp = {'xyz': x}
    if ok and ctx.expect(np.shape(q) == (n, 3), 'cylindrical:shape', '', inp):
        ctx.close(q[:, 0], np.hypot(x[:, 0], x[:, 1]), s, 1e-14, 'cylindrical:radius', inp)
        ctx.expect(np.all((q[:, 1] >= 0) & (q[:, 1] < 2*np.pi)), 'cylindrical:range', repr(q[:, 1]), inp)
        ctx.close(np.column_stack([np.cos(q[:, 1]), np.sin(q[:, 1])])*q[:, :1], x[:, :2], s, 1e-14*4,
                  'cylindrical:angle', inp)
        ctx.close(q[:, 2], x[:, 2], 0., 1., 'cylindrical:z', inp)
        ok, y = ctx.call(gs.cyl_2_cart, q)
        if ok:
            ctx.close(y, x, s, 1e-14*4, 'cylindrical:round-trip', inp)
    rq = np.column_stack([np.abs(x[:, 0]), rng.uniform(-20, 20, n), x[:, 2]])
    ok, y = ctx.call(gs.cyl_2_cart, rq)
    if ok:
        w = np.column_stack([rq[:, 0]*np.cos(rq[:, 1]), rq[:, 0]*np.sin(rq[:, 1]), rq[:, 2]])
        ctx.close(y, w, s, 1e-14*4, 'cylindrical:to-cartesian', {'rqz': rq})


def run(ctx):
    for i, rng in ctx.rounds(45*len(NAMES), 1200*len(NAMES)):
        name = NAMES[i % len(NAMES)]
        top = 18 if not (ctx.thorough and i % 7 == 0) else 40
        n3 = tuple(int(v) for v in rng.integers(5, top, 3))
        if i % 5 == 0:
            n3 = (n3[0],)*3
        if i % 4 == 1 and name in ('rectangle', 'annulus', 'wedge', 'trapezoid', 'tri_prism', 'ngon_prism'):
            # a single layer, or a few
            n3 = (*n3[:2], int(rng.integers(1, 4)))
            if name == 'rectangle':
                n3 = tuple(int(v) for v in rng.choice([1, 2, 3, 7], 3))
        elif i % 11 == 3:
            # many layers of few cells and the other way round
            n3 = (n3[0], n3[1], int(rng.integers(25, 50))) if rng.random() < .5 else (int(rng.integers(25, 40)),)*2+(n3[2],)
        args, R, n3 = make(name, rng, n3)
        mass = float(gen.scale(rng)*rng.choice([1, 1, 1, -1]))
        ok, pts = ctx.call(getattr(gs, name), mass, *args)
        if ok:
            judge(ctx, name, mass, args, R, n3, pts, name)
            ctx.case((name, mass, args), True, {'shape': name, 'args': args, 'points': len(pts)})
    for i, rng in ctx.rounds(80, 1500, 'shell'):
        shell(ctx, rng)
    for i, rng in ctx.rounds(200, 4000, 'cyl'):
        coords(ctx, rng)
