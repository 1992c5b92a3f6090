"""Newtonian force and torque between point-mass arrays."""
import numpy as np
import newt.glib as glb
from newt.constants import BIG_G
from vrt import gen

RULE = ('random and hostile pairs of point-mass arrays (1..40 points, mixed signs, coincident '
        'planes, scales 1e-3..1e3 m, separations 1e-4..1e6, list/1-D/int/Fortran layouts) and lists of up to 200000 points; '
        'non-trivial when the force is not zero by symmetry')
QUICK = 3       # rounds of the quick tier are multiplied by this
REQUIRE = ['glib.gmmr2_array', 'glib.point_matrix_gravity']
ASSUME = ['BIG_G is the packaged constant', 'coincident points of the two arrays are excluded']


def ref(a, b):
    """independent pair sum in extended precision: force/torque on a by b,
    with the absolute sums as error scales."""
    a = np.atleast_2d(a).astype(np.longdouble)
    b = np.atleast_2d(b).astype(np.longdouble)
    d = b[None, :, 1:4]-a[:, None, 1:4]
    r2 = np.sum(d*d, axis=2)
    f = BIG_G*(a[:, None, 0]*b[None, :, 0]/(r2*np.sqrt(r2)))[..., None]*d
    F = f.sum(1)
    T = np.stack([a[:, 2]*F[:, 2]-a[:, 3]*F[:, 1],
                  a[:, 3]*F[:, 0]-a[:, 1]*F[:, 2],
                  a[:, 1]*F[:, 1]-a[:, 2]*F[:, 0]], axis=1)
    fs = np.abs(BIG_G*a[:, None, 0]*b[None, :, 0]/r2)
    # positions subtract: relative error of d grows like |x|/|d|
    amp = 1+(np.abs(a[:, None, 1:4]).max(2)+np.abs(b[None, :, 1:4]).max(2))/np.sqrt(r2)
    fscale = float((fs*amp).sum())
    tscale = float((fs*amp*np.sqrt((a[:, 1:4]**2).sum(1))[:, None]).sum())
    return F.sum(0).astype(float), T.sum(0).astype(float), fscale, tscale


def one(ctx, a, b, tag):
    F, T, fs, ts = ref(a, b)
    inp = {'mass1': a, 'mass2': b}
    ok, out = ctx.call(glb.point_matrix_gravity, a, b)
    if ok and ctx.expect(isinstance(out, tuple) and len(out) == 2, 'gravity:form', repr(out)[:80], inp):
        ctx.close(out[0], F, fs, 1e-13, 'gravity:force:'+tag, inp)
        ctx.close(out[1], T, ts, 1e-13, 'gravity:torque:'+tag, inp)
    nz = fs > 0 and np.abs(F).max() > 1e-9*fs
    ctx.case((tag, a, b), nz, {'force': F, 'n1': np.shape(a), 'n2': np.shape(b)} if nz else None)
    return out if ok else None


def run(ctx):
    ctx.expect(abs(BIG_G/6.67428e-11-1) < 1e-12, 'gravity:constant', repr(BIG_G))
    for i, rng in ctx.rounds(2000, 60000):
        a, b, tag = gen.pair(rng, i)
        out = one(ctx, a, b, tag)
        # single-row primitive, 1-D and 2-D second argument
        a2, b2 = np.atleast_2d(a), np.atleast_2d(b)
        k = int(rng.integers(len(a2)))
        F, _, fs, _ = ref(a2[k], b2)
        ok, f = ctx.call(glb.gmmr2_array, a2[k], b2)
        if ok:
            ctx.close(f, F, fs, 1e-13, 'gravity:single', {'m1': a2[k], 'm2': b2})
        j = int(rng.integers(len(b2)))
        F, _, fs, _ = ref(a2[k], b2[j])
        ok, f = ctx.call(glb.gmmr2_array, a2[k], b2[j])
        if ok:
            ctx.close(f, F, fs, 1e-13, 'gravity:single1d', {'m1': a2[k], 'm2': b2[j]})
        if out is None:
            continue
        F, T, fs, ts = ref(a, b)
        # third law, using only the code under test
        ok, rev = ctx.call(glb.point_matrix_gravity, b2, a2)
        if ok:
            _, _, fs2, ts2 = ref(b2, a2)
            ctx.close(np.add(out[0], rev[0]), np.zeros(3), fs+fs2, 1e-13, 'gravity:third-law', {'m1': a, 'm2': b})
            ctx.close(np.add(out[1], rev[1]), np.zeros(3), ts+ts2, 1e-12,
                      'gravity:torque-balance', {'m1': a, 'm2': b})
        # order of the points and splitting the arrays do not matter
        p = rng.permutation(len(a2))
        q = rng.permutation(len(b2))
        ok, pr = ctx.call(glb.point_matrix_gravity, a2[p], b2[q])
        if ok:
            ctx.close(pr[0], F, fs, 1e-13, 'gravity:permutation', {'m1': a, 'm2': b})
            ctx.close(pr[1], T, ts, 1e-13, 'gravity:permutation', {'m1': a, 'm2': b})
        if len(a2) > 1:
            h = int(rng.integers(1, len(a2)))
            ok1, p1 = ctx.call(glb.point_matrix_gravity, a2[:h], b2)
            ok2, p2 = ctx.call(glb.point_matrix_gravity, a2[h:], b2)
            if ok1 and ok2:
                ctx.close(np.add(p1[0], p2[0]), F, fs, 1e-13, 'gravity:additive', {'m1': a, 'm2': b})
                ctx.close(np.add(p1[1], p2[1]), T, ts, 1e-13, 'gravity:additive', {'m1': a, 'm2': b})
    # long lists of points, equal to the sum over their pieces
    for i, rng in ctx.rounds(8, 120, 'many'):
        n = int(10**rng.uniform(3.5, 5.3))
        b = rng.normal(size=(n, 4))
        if i % 2:
            b[:, 0] = np.abs(b[:, 0])
        b[:, 1:4] = b[:, 1:4]*gen.scale(rng, -2, 2)
        a = np.array([[1., *(gen.unit(rng)*float(np.abs(b[:, 1:4]).max())*rng.uniform(1.8, 9))] for _ in range(2)])
        one(ctx, a, b, 'many')
        if i % 4 == 3:
            one(ctx, b[:3000], a, 'many')
