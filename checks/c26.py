"""Octave: point-mass shapes and surface scans."""
import numpy as np
from vrt import gen, octave

FN = ['genPointMassRect', 'genPointMassAnnlSheet', 'genPointMassXRing', 'genPointMassLine', 'genPointMassRandomDisk',
      'genPointMassRandomRectangle', 'genPointMassSphericalRandomShell', 'genPointMassArrayFrom2DArray',
      'scanToPMArray', 'scanCenterAndRemoveLinear', 'scatterPMMassesYZGrid']
RULE = ('random dimensions, counts and masses of every Octave generator, every point judged (random ones '
        'statistically at 6.5 sigma), refused dimensions; random height maps with holes and negative heights, regular and scattered '
        'surface scans, tilted scans; every case counts')
REQUIRE = ['octave.'+n for n in FN]
ASSUME = ['cells whose centre is within 1e-9 of a rim may be filled or empty', 'heights are not within 1e-6 of a '
          'whole number of steps', 'columns on the edge of a scattered scan may be missing (triangulation)',
          'the scatter size is the one the parameter script defines']
GRID = .37


def same_points(ctx, got, want, scale, kind, inp, tol=1e-12, dens=None):
    """equal as sets of rows; want sorted by construction."""
    if not ctx.expect(got.ndim == 2 and got.shape == want.shape, kind+':count', f'{got.shape} not {want.shape}', inp):
        return
    if not len(got):
        return
    key = lambda a: np.lexsort(np.round(a[:, :0:-1]/(scale*1e-7)).T)
    ctx.close(got[key(got), 1:], want[key(want), 1:], scale, tol, kind+':points', inp)
    ctx.close(got[:, 0], want[:, 0], np.abs(want[:, 0]), tol, kind+':masses', inp)


def zscore(ctx, x, mean, var, kind, inp):
    """sample mean against expectation."""
    z = (np.mean(x)-mean)/np.sqrt(var/len(x))
    ctx.close(z, 0., 1., 6.5, kind, inp)


def grid(n, s):
    return (np.arange(n)-(n-1)/2)*s/n


def heights(rng, ny, nx):
    A = rng.integers(0, 7, (ny, nx))+rng.uniform(.05, .95, (ny, nx))
    c = rng.random((ny, nx))
    A = np.where(c < .1, np.nan, A)
    return np.where(c > .9, -rng.integers(0, 3, (ny, nx))-.5, A)


def columns(A, dx, dy, dz, rho):
    ny, nx = A.shape
    out = []
    for j in range(nx):
        for i in range(ny):
            if A[i, j] > 0:
                for k in range(int(np.floor(A[i, j]))):
                    out.append([dx*dy*dz*rho, (j-(nx-1)/2)*dx, (i-(ny-1)/2)*dy, (k+.5)*dz])
    return np.array(out).reshape(-1, 4)


def run(ctx):
    b = octave.Batch(ctx)
    for i, rng in ctx.rounds(320, 3200):
        s = gen.scale(rng)
        m = float(rng.uniform(.1, 5))
        d = [float(x) for x in s*rng.uniform(.3, 2, 3)]
        n = [int(x) for x in rng.integers(1, 8, 3)]
        b.add('genPointMassRect', m, *d, *n, tag=('rect', m, d, n))
        ro = s*float(rng.uniform(.5, 2))
        ri = ro*float(rng.choice([0., rng.uniform(.05, .9)]))
        ny = int(rng.integers(4, 26)) if i % 8 else int(rng.integers(26, 70))
        if np.any((lambda r: (r <= ro*(1-1e-6)) & (r >= ri*(1+1e-6)))(np.hypot(*np.meshgrid(grid(ny, 2*ro), grid(ny, 2*ro))))):
            b.add('genPointMassAnnlSheet', m, ri, ro, d[0], n[0], ny, tag=('annl', m, (ri, ro, d[0]), (n[0], ny)))
        N = int(rng.integers(1, 40))
        b.add('genPointMassXRing', m, ro, N, tag=('ring', m, ro, N))
        x, y, z0 = (float(v) for v in rng.normal(size=3)*s)
        dz = float(rng.choice([-1, 1])*s*rng.uniform(.01, 1))
        b.add('genPointMassLine', m, x, y, z0, dz, N, tag=('line', m, (x, y, z0, dz), N))
        seed = int(rng.integers(1, 2**31))
        N = int(rng.integers(200, 1500)) if i % 2 else int(rng.integers(1, 30))
        b.add('genPointMassRandomDisk', m, ri, ro, N, seed=seed, tag=('disk', m, (ri, ro), N))
        b.add('genPointMassRandomRectangle', m, d[0], d[1], N, seed=seed, tag=('rrect', m, d[:2], N))
        N = int(rng.integers(20, 4000))
        b.add('genPointMassSphericalRandomShell', m, ro, N, seed=seed, tag=('shell', m, ro, N))
        c = i % 4
        if c == 0:
            b.add('genPointMassRandomDisk', m, ro, ri, 5, tag=('bad', 'disk radii swapped', None, None))
        elif c == 1:
            b.add('genPointMassRandomDisk', m, -ro, ro, 5, tag=('bad', 'disk negative radius', None, None))
        elif c == 2:
            b.add('genPointMassRandomRectangle', m, *((-d[0], d[1]) if rng.random() < .5 else (d[0], -d[1])), 5,
                  tag=('bad', 'rectangle negative width', None, None))
        else:
            b.add('genPointMassRandomDisk', m, ro, ro, 5, tag=('bad', 'disk of no area', None, None))
        ny, nx = (int(v) for v in rng.integers(1, 9, 2))
        A = heights(rng, ny, nx)
        if i % 40 == 0:
            A = heights(rng, 3, 35)
        if not (np.nan_to_num(A) > 0).any():
            A[0, 0] = 2.5
        b.add('genPointMassArrayFrom2DArray', A*d[2], *d, m, tag=('map', m, d, A))
        # a regular scan: any surface
        dx, dy = (float(v) for v in 2.**rng.integers(-3, 3, 2))
        ny, nx = (int(v) for v in rng.integers(3, 9, 2))
        H = rng.integers(1, 7, (ny, nx))+rng.uniform(.05, .95, (ny, nx))
        X, Y = np.meshgrid(np.arange(nx)*dx+int(rng.integers(-4, 5)), np.arange(ny)*dy+int(rng.integers(-4, 5)))
        k = rng.permutation(nx*ny)
        b.add('scanToPMArray', np.column_stack([X.ravel(), Y.ravel(), H.ravel()*d[2]])[k], dx, dy, d[2], m,
              tag=('scan', m, (dx, dy, d[2]), H))
        # a scattered scan of a plane
        nx, ny = (int(v) for v in rng.integers(3, 9, 2))
        dx, dy = d[0], d[1]
        W, V = (nx-.5)*dx, (ny-.5)*dy
        P = np.vstack([[[0, 0], [W, 0], [0, V], [W, V]], rng.random((30, 2))*[W, V]])
        a = rng.uniform(-3, 3, 2)/[W, V]
        hh = lambda x, y: 7+a[0]*x+a[1]*y
        o = rng.normal(size=2)*s
        b.add('scanToPMArray', np.column_stack([P+o, hh(P[:, 0], P[:, 1])*d[2]])[rng.permutation(34)], dx, dy, d[2], m,
              tag=('plane', m, d, hh(*np.meshgrid(np.arange(nx)*dx, np.arange(ny)*dy))))
        P = rng.normal(size=(int(rng.integers(4, 60)), 3))*s+rng.normal(size=3)*s*5
        P[:, 2] += P[:, :2] @ rng.normal(size=2)
        b.add('scanCenterAndRemoveLinear', P, tag=('tilt', 0, 0, P))
        P = gen.points(rng, int(rng.integers(200, 900)), s)
        b.add('scatterPMMassesYZGrid', P, seed=seed, tag=('scatter', 0, 0, P))
    ctx.label = None
    for tag, ok, v in b.run([('run3147PendulumParameters.m', f'pendulumPMScanGridSize = {GRID};\n')]):
        kind, m, d, n = tag
        inp = {'shape': kind, 'mass': m, 'dims': d, 'counts': n}
        ctx.case((kind, m, str(d), str(n)), True, inp)
        if kind == 'bad':
            ctx.expect(not ok, 'accepted:'+m, '', inp)
            continue
        if not ok:
            ctx.fail(kind+':exception', v, inp)
            continue
        a = v[0].reshape(-1, v[0].shape[-1]) if v[0].size else np.zeros((0, 4))
        if kind == 'rect':
            g = np.array(np.meshgrid(*[grid(k, s) for k, s in zip(n, d)], indexing='ij')).reshape(3, -1).T
            same_points(ctx, a, np.column_stack([np.full(len(g), m/len(g)), g]), max(d), kind, inp)
        elif kind == 'annl':
            ri, ro, t = d
            nx, ny = n
            g = np.array(np.meshgrid(grid(nx, t), grid(ny, 2*ro), grid(ny, 2*ro), indexing='ij')).reshape(3, -1).T
            r = np.hypot(g[:, 1], g[:, 2])
            sure = (r <= ro*(1-1e-9)) & (r >= ri*(1+1e-9))
            may = (r <= ro*(1+1e-9)) & (r >= ri*(1-1e-9)-1e-12*ro)
            key = lambda x: {tuple(q) for q in np.round(x/np.array([t/nx, 2*ro/ny, 2*ro/ny])*2).astype(int)}
            got = key(a[:, 1:])
            ctx.expect(key(g[sure]) <= got <= key(g[may]) and len(got) == len(a), 'annl:cells',
                       f'{len(a)} points, {sure.sum()}..{may.sum()} expected', inp)
            x = a[:, 1:]/np.array([t/nx, 2*ro/ny, 2*ro/ny])*2
            ctx.close(x, np.round(x), 1., 1e-9, 'annl:grid', inp)
            ctx.close(a[:, 0], np.full(len(a), m/len(a)), m/len(a), 1e-11, 'annl:masses', inp)
        elif kind == 'ring':
            t = 2*np.pi/n*np.arange(n)
            same_points(ctx, a, np.column_stack([np.full(n, m/n), 0*t, d*np.sin(t), d*np.cos(t)]), d, kind, inp)
        elif kind == 'line':
            x, y, z0, dz = d
            k = np.arange(n)
            w = np.column_stack([np.full(n, m), np.full(n, x), np.full(n, y), z0+k*dz])
            if ctx.expect(a.shape == w.shape, 'line:count', a.shape, inp):
                ctx.close(a[np.argsort(a[:, 3])], w[np.argsort(w[:, 3])], np.abs(w).max(), 1e-12, 'line:points', inp)
        elif kind in ('disk', 'rrect'):
            if not ctx.expect(a.shape == (n, 4), kind+':count', a.shape, inp):
                continue
            ctx.close(a[:, 0], np.full(n, m), m, 1e-12, kind+':masses', inp)
            ctx.close(a[:, 1], np.zeros(n), 1., 0, kind+':plane', inp)
            if kind == 'disk':
                ri, ro = d
                r2 = (a[:, 2]**2+a[:, 3]**2)
                ctx.expect((r2 <= ro**2*(1+1e-9)).all() and (r2 >= ri**2*(1-1e-9)).all(), 'disk:radius', '', inp)
                if n >= 200:
                    u = (r2-ri**2)/(ro**2-ri**2)
                    ph = np.arctan2(a[:, 3], a[:, 2])
                    for f, mean, var in ((u, .5, 1/12), (u*u, 1/3, 4/45), (np.cos(ph), 0, .5), (np.sin(ph), 0, .5),
                                         (np.cos(2*ph), 0, .5), (np.sin(2*ph), 0, .5)):
                        zscore(ctx, f, mean, var, 'disk:uniform', inp)
            else:
                u = a[:, 2:4]/np.array(d)
                ctx.expect((np.abs(u) <= .5*(1+1e-9)).all(), 'rrect:extent', '', inp)
                if n >= 200:
                    for f, mean, var in ((u[:, 0], 0, 1/12), (u[:, 1], 0, 1/12), (u[:, 0]**2, 1/12, 1/180),
                                         (u[:, 1]**2, 1/12, 1/180), (u[:, 0]*u[:, 1], 0, 1/144)):
                        zscore(ctx, f, mean, var, 'rrect:uniform', inp)
        elif kind == 'shell':
            N = np.floor(n*4/np.pi)
            ctx.expect(abs(len(a)-N*np.pi/4) <= 6.5*np.sqrt(N*np.pi/4*(1-np.pi/4))+2, 'shell:count', f'{len(a)} for {n}', inp)
            ctx.close(np.sqrt((a[:, 1:]**2).sum(1)), np.full(len(a), d), d, 1e-12, 'shell:radius', inp)
            ctx.close(a[:, 0], np.full(len(a), m/len(a)), m/len(a), 1e-11, 'shell:masses', inp)
            if len(a) >= 200:
                u = a[:, 1:]/d
                for k in range(3):
                    zscore(ctx, u[:, k], 0, 1/3, 'shell:uniform', inp)
                    zscore(ctx, u[:, k]**2, 1/3, 4/45, 'shell:uniform', inp)
                    zscore(ctx, u[:, k]*u[:, k-1], 0, 1/15, 'shell:uniform', inp)
        elif kind in ('map', 'scan'):
            want = columns(n, *d, m)
            same_points(ctx, a, want, np.abs(want[:, 1:]).max(initial=max(d)), kind, inp)
        elif kind == 'plane':
            cell = np.array([d[0], d[1]])
            ny, nx = n.shape
            k = np.round(a[:, 1:3]/cell+[(nx-1)/2, (ny-1)/2]).astype(int)
            ctx.close(a[:, 1:3], (k-[(nx-1)/2, (ny-1)/2])*cell, np.max(cell)*max(nx, ny), 1e-12, 'plane:grid', inp)
            ctx.close(a[:, 0], np.full(len(a), m*d[0]*d[1]*d[2]), m*d[0]*d[1]*d[2], 1e-12, 'plane:masses', inp)
            bad = []
            for ix in range(nx):
                for iy in range(ny):
                    z = np.sort(a[(k[:, 0] == ix) & (k[:, 1] == iy), 3])/d[2]
                    h = n[iy, ix]
                    edge = ix in (0,) or iy in (0,)
                    if edge and not len(z):
                        continue
                    good = len(z) in (np.floor(h-1e-6), np.floor(h+1e-6)) and np.allclose(z, np.arange(len(z))+.5, atol=1e-9)
                    if not good:
                        bad.append((ix, iy, len(z), h))
            ctx.expect(not bad, 'plane:columns', bad[:4], inp)
        elif kind == 'tilt':
            P = n-n.mean(0)
            P[:, 2] -= P[:, :2] @ np.linalg.lstsq(P[:, :2], P[:, 2], rcond=None)[0]
            cond = np.linalg.cond(P[:, :2])
            ctx.close(a, P*1e-3, np.abs(n).max()*1e-3*cond**2, 1e-12, 'tilt', inp)
        else:
            if ctx.expect(a.shape == n.shape, 'scatter:shape', a.shape, inp):
                ctx.close(a[:, :2], n[:, :2], np.abs(n[:, :2]), 0, 'scatter:mass and x kept', inp)
                u = (a[:, 2:]-n[:, 2:])/GRID
                for f, mean, var in ((u[:, 0], 0, 1), (u[:, 1], 0, 1), (u[:, 0]**2, 1, 2), (u[:, 1]**2, 1, 2),
                                     (u[:, 0]*u[:, 1], 0, 1)):
                    zscore(ctx, f, mean, var, 'scatter:size', inp)
