"""Gravitational torque about z from moments, with one body rotated and moved."""
import numpy as np
import newt.multipoleLib as ml
from checks.c12 import tolerance
from vrt import field, gen, harm, shift

RULE = ('random inner clouds and distant clouds; the sensor moved inside, the source moved outside, or the '
        'source carried from the origin to outside; Euler angles incl. degenerate and multi-turn, '
        'displacements zero, on, near and off the axes, degree 0..8 (and 12..16 for the pairwise sum); '
        'judged at the same truncation from moved masses, and by pairwise torque with truncation bounded')
QUICK = 5       # rounds of the quick tier are multiplied by this
REQUIRE = ['multipoleLib.torque_lm', 'multipoleLib.torque']
ASSUME = ['G = 6.67428e-11 as documented for the library',
          'displacements within 1e-7 rad of the z axis judged at the accuracy of arccos']


def by_table(q, Q):
    L = len(q)-1
    m = np.arange(-L, L+1)
    t = -4j*np.pi*field.G*np.outer(1/(2*np.arange(L+1)+1), m)*q*Q
    return t, np.abs(t).sum()


def bodies(rng, s, ratio):
    a = s*ratio
    p = gen.points(rng, int(rng.integers(1, 8)), a)
    gen.heavier(p)
    n = int(rng.integers(1, 8))
    src = gen.points(rng, n, s)
    gen.heavier(src)
    r = np.sqrt((src[:, 1:]**2).sum(1))
    src[:, 1:] *= (s*rng.uniform(1, 2, n)/np.where(r == 0, 1, r))[:, None]
    src[r == 0, 3] = s
    return a, p, src


def outcome(ctx, got, want, sc, tol, kind, inp):
    """nlm sums to the torque; nc, ns repeat the same information."""
    ok, v = got
    if not ok:
        return None
    if not ctx.expect(isinstance(v, tuple) and len(v) == 3, kind+':three results', str(type(v)), inp):
        return None
    nlm, nc, ns = v
    ctx.close(np.sum(nlm), want, sc, tol, kind, inp)
    return v


def run(ctx):
    for i, rng in ctx.rounds(240, 6000):
        L = int(rng.integers(0, 9)) if i % 6 else int(rng.integers(12, 17))
        s = gen.scale(rng)
        a, p, src = bodies(rng, s, 10**rng.uniform(-2, -.7))
        R = None
        e = tuple(float(t) for t in gen.euler(rng)) if i % 4 else (0., 0., 0.)
        R = harm.euler_zyz(*e)
        ang = tolerance(L, *e)
        q = harm.inner(L, p[:, 1:], p[:, 0])
        Q = harm.outer(L, src[:, 1:], src[:, 0])
        Qn = np.sqrt((np.abs(Q)**2).sum(1))
        l = np.arange(L+1.)
        cn = {} if i % 7 else {'cnst': float(rng.choice([1., 6.67e-11, 40.]))}
        k = cn.get('cnst', field.G)/field.G

        def bound(pp, Qn):
            rr = np.sqrt((pp[:, 1:]**2).sum(1))
            return 4*np.pi*field.G*np.sum(np.abs(pp[:, 0])[:, None]*rr[:, None]**l*np.sqrt(2*l+1)*l*Qn/(2*l+1))*k
        tiny = 1e-300
        # as they are
        nl, _ = by_table(q, Q)
        inp = {'L': L, 'inner': p, 'outer': src, **cn}
        f, _ = field.forces(Q, p)
        v = outcome(ctx, ctx.call(ml.torque_lm, q, Q, **cn), field.ztorque(p, f)*k, bound(p, Qn)+tiny, 1e-12, 'at rest', inp)
        if v is not None:
            ctx.close(v[0], nl*k, bound(p, Qn)+tiny, 1e-13, 'at rest:by degree and order', inp)
        pairs(ctx, v, p, src, L, k, bound(p, Qn), 'at rest:pairwise', inp)
        # inner body turned, then moved
        va = np.zeros(3)
        d = shift.vector(rng, a*10**rng.uniform(-1.5, .2)) if i % 5 else [0, 0, 0]
        va = np.asarray(d, float)
        tol = (1e-12+4*(shift.pole(d) if va.any() else 0)*max(1, L))*max(1, L)+ang
        pm = field.move(p, R, va)
        f, _ = field.forces(Q, pm)
        inp = {'L': L, 'euler': e, 'shift': d, 'inner': p, 'outer': src, **cn}
        sc = bound(np.column_stack([p[:, 0], np.sqrt((p[:, 1:]**2).sum(1))+np.sqrt(va @ va), 0*p[:, :2]]), Qn)+tiny
        how = {} if i % 3 == 0 else {'trans_type': 'inner-inner'}
        v = outcome(ctx, ctx.call(ml.torque, q, Q, e, d, **how, **cn), field.ztorque(pm, f)*k, sc, tol, 'sensor moved', inp)
        pairs(ctx, v, pm, src, L, k, sc, 'sensor moved:pairwise', inp, tol=tol)
        ctx.case((L, p, src, e, va), L > 0, {'L': L, 'euler': e, 'shift': d})
        # source turned, then moved
        rm = np.sqrt((src[:, 1:]**2).sum(1)).min()
        d = shift.vector(rng, rm*10**rng.uniform(-2.5, -.7)) if i % 5 != 1 else (0., 0., 0.)
        va = np.asarray(d, float)
        sm = field.move(src, R)
        Qr = harm.outer(L, sm[:, 1:], sm[:, 0])
        Q2 = shift.outer2outer(Qr, va)[0] if va.any() else Qr
        sm = field.move(sm, None, va)
        rot = np.array([sum(np.sqrt((np.abs(Q[h])**2).sum())*np.sqrt(va @ va)**(h-j) *
                            np.exp(shift.lf(h+j)-shift.lf(2*j)-shift.lf(h-j))*4 for h in range(j, L+1))
                        for j in range(L+1)])
        f, _ = field.forces(Q2, p)
        inp = {'L': L, 'euler': e, 'shift': d, 'inner': p, 'outer': src, **cn}
        tol = (1e-12+4*(shift.pole(d) if va.any() else 0)*max(1, L))*max(1, L)+ang
        sc = bound(p, rot)+tiny
        v = outcome(ctx, ctx.call(ml.torque, q, Q, e, d, 'outer-outer', **cn), field.ztorque(p, f)*k, sc, tol,
                    'source moved', inp)
        pairs(ctx, v, p, sm, L, k, sc, 'source moved:pairwise', inp, np.sqrt(va @ va)/rm, rm, tol)
        # a source described about its own centre, turned, and carried outside
        b = gen.points(rng, int(rng.integers(1, 8)), s)
        gen.heavier(b)
        d = shift.vector(rng, s*10**rng.uniform(.4, 1.5))
        va = np.asarray(d, float)
        qb = harm.inner(L, b[:, 1:], b[:, 0])
        bm = field.move(b, R)
        Q2 = shift.inner2outer(harm.inner(L, bm[:, 1:], bm[:, 0]), va)[0]
        bm = field.move(bm, None, va)
        rr = np.sqrt(va @ va)
        bn = np.sqrt((np.abs(qb)**2).sum(1))
        rot = np.array([sum(bn[h]*rr**-(h+j+1.)*np.exp(shift.lf(h+j)-shift.lf(h)-shift.lf(j))*4
                            for h in range(L+1)) for j in range(L+1)])
        f, _ = field.forces(Q2, p)
        inp = {'L': L, 'euler': e, 'shift': d, 'inner': p, 'source': b, **cn}
        tol = (1e-12+4*shift.pole(d)*max(1, 2*L))*max(1, L)+ang
        sc = bound(p, rot)+tiny
        v = outcome(ctx, ctx.call(ml.torque, q, qb, e, d, trans_type='inner-outer', **cn), field.ztorque(p, f)*k, sc, tol,
                    'source carried outside', inp)
        br = np.sqrt((b[:, 1:]**2).sum(1)).max()
        pairs(ctx, v, p, bm, L, k, sc, 'source carried outside:pairwise', inp, br/rr, rr, tol)


def pairs(ctx, v, p, src, L, k, sc, kind, inp, y=0., r0=None, tol=1e-12):
    """pairwise sum; tail of the double expansion bounded by powers of x (inner/outer) and y (source shift)."""
    if v is None or L == 0:
        return
    f, mag = field.pairwise(p, src)
    rp = np.sqrt((p[:, 1:]**2).sum(1))
    rs = np.sqrt((src[:, 1:]**2).sum(1))
    lim = 0.
    if y == 0.:
        x = rp[:, None]/rs[None, :]
        if x.max() > .7:
            return
        tail = sum((h+1.)**2*x**h for h in range(L+1, L+120))
        lim = (field.G*np.abs(p[:, None, 0]*src[None, :, 0])/rs[None, :]*tail).sum()*k
    else:
        x = rp/r0
        if x.max()/(1-y) > .7 or y > .7:
            return
        # terms x^j y^h C(j+h, j) with j > L or (source side) degree lost beyond the table
        j = np.arange(0, 60)[:, None]
        h = np.arange(0, 60)[None, :]
        C = np.exp(np.vectorize(shift.lf)(j+h)-np.vectorize(shift.lf)(j)-np.vectorize(shift.lf)(h))
        lost = (j > L) | (h > L) | (j+h > L)
        t = [(np.where(lost, (j+1.)**2*(h+1.)*C*xx**j*y**h, 0.)).sum() for xx in x]
        lim = (field.G*np.abs(p[:, 0])*np.array(t)).sum()*np.abs(src[:, 0]).sum()/r0*k*2
    ctx.close(np.real(np.sum(v[0])), field.ztorque(p, f)*k, lim+(1e-11*max(1, L)+tol)*sc, 1., kind, inp)
