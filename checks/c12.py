"""Rotation of multipole moments and the Wigner matrices behind it."""
import functools
import numpy as np
import newt.rotations as rot
from vrt import gen, harm

RULE = ('random and degenerate Euler angles (multi-turn, negative, poles), degree 0..60, moments of '
        'random mass clouds and arbitrary complex tables; judged by rotating the masses themselves and '
        'by matrix exponentials of Jy, plus composition/inverse/unitarity; non-trivial when degree>0')
QUICK = 3       # rounds of the quick tier are multiplied by this
REQUIRE = ['rotations.'+n for n in ('rotate_qlm', 'wignerDl', 'dlmn', 'Dl', 'Dlmn', 'rotate_qlm_Ds',
                                    'rotate_qlm_Ds_right')]
ASSUME = ['within 1e-7 rad of beta = 0 or pi judged at the accuracy of cos(beta)', 'explicit-sum matrices judged at 1e-9 up to degree 12 (alternating sums)']


@functools.lru_cache(None)
def jy(l):
    m = np.arange(-l, l)
    c = np.sqrt(l*(l+1)-m*(m+1))        # J+ |m> = c |m+1>
    Jp = np.diag(c, -1)
    J = (Jp-Jp.T)/2j
    w, V = np.linalg.eigh(J)
    return np.round(w), V


def small_d(l, b):
    w, V = jy(l)
    return np.real((V*np.exp(-1j*b*w)) @ V.conj().T)


def big_D(l, a, b, g):
    m = np.arange(-l, l+1)
    return np.exp(-1j*a*m)[:, None]*small_d(l, b)*np.exp(-1j*g*m)[None, :]


def unit_cloud(rng, n, outer=False):
    p = gen.points(rng, n, 1.)
    p[:, 1:] /= max(1e-3, np.sqrt((p[:, 1:]**2).sum(1)).max())
    if outer:
        p[:, 1:] += gen.direction(rng)*rng.uniform(1.8, 3)
    return p


def table(rng, L):
    """arbitrary complex table, zero outside |m|<=l (no mass cloud need exist)."""
    q = np.zeros((L+1, 2*L+1), complex)
    for l in range(L+1):
        q[l, L-l:L+l+1] = rng.normal(size=2*l+1)+1j*rng.normal(size=2*l+1)
    return q


def apply(Ds, q):
    L = len(q)-1
    out = np.zeros_like(q)
    for l in range(L+1):
        out[l, L-l:L+l+1] = Ds[l] @ q[l, L-l:L+l+1]
    return out


def rn(q):
    """per-degree norm."""
    return np.sqrt((np.abs(q)**2).sum(1))[:, None]


def tolerance(L, a, b, g):
    # rounding of the angles, and of cos(beta) (all the recursion sees) near the poles
    pole = min(2e-16/max(abs(np.sin(b)), 1e-300), max(abs(np.sin(b)), 1e-15)+1e-16)
    return 3e-14*(1+abs(a)+abs(b)+abs(g))*(L+1)+8*pole*(L+1)


def run(ctx):
    for i, rng in ctx.rounds(260, 6000):
        L = int(rng.integers(0, 11)) if i % 5 else int(rng.integers(11, 31))
        if i % 40 == 39:
            L = int(rng.integers(31, 61))
        a, b, g = (float(v) for v in gen.euler(rng))
        R = harm.euler_zyz(a, b, g)
        ang = tolerance(L, a, b, g)
        p = unit_cloud(rng, int(rng.integers(1, 12)))
        q = harm.inner(L, p[:, 1:], p[:, 0])
        inp = {'L': L, 'euler': (a, b, g), 'points': p}
        l1 = np.arange(L+1)
        sc = (harm.absbound_inner(L, p[:, 1:], p[:, 0])*np.sqrt(2*l1+1))[:, None]
        ok, q2 = ctx.call(rot.rotate_qlm, q, a, b, g)
        if ok:
            ctx.close(q2, harm.inner(L, p[:, 1:] @ R.T, p[:, 0]), sc, 2e-12+ang, 'inner', inp)
            ctx.case(('i', L, a, b, g, p), L > 0, {'L': L, 'euler': (a, b, g)})
        # sources outside: same rotation seen by the conjugate table
        p = unit_cloud(rng, int(rng.integers(1, 12)), True)
        Q = harm.outer(L, p[:, 1:], p[:, 0])
        sc = (harm.absbound_outer(L, p[:, 1:], p[:, 0])*np.sqrt(2*l1+1))[:, None]
        ok, Q2 = ctx.call(rot.rotate_qlm, Q, -a, b, -g)
        if ok:
            ctx.close(Q2, harm.outer(L, p[:, 1:] @ R.T, p[:, 0]), sc, 2e-12+ang, 'outer',
                      {'L': L, 'euler': (-a, b, -g), 'points': p})
        # arbitrary complex tables, and the matrices
        t = table(rng, L)
        inp = {'L': L, 'euler': (a, b, g), 'table': t}
        D = [big_D(l, a, b, g) for l in range(L+1)]
        okr, t2 = ctx.call(rot.rotate_qlm, t, a, b, g)
        if okr:
            ctx.close(t2, apply(D, t), rn(t), 2e-12+ang, 'table', inp)
        okd, ds = ctx.call(rot.wignerDl, L, a, b, g)
        if okd and ctx.expect(len(ds) == L+1, 'matrices:count', str(len(ds)), inp):
            for l in range(L+1):
                ctx.close(ds[l], D[l], 1., 2e-12+ang, 'matrices', {'l': l, **inp})
            oks, t3 = ctx.call(rot.rotate_qlm_Ds, t, ds)
            if oks:
                ctx.close(t3, apply(D, t), rn(t), 2e-12+ang, 'apply', inp)
                okb, t4 = ctx.call(rot.rotate_qlm_Ds, t3, ds, conj_trans=True)
                if okb:
                    ctx.close(t4, t, rn(t), 4e-12+ang, 'apply inverse', inp)
            oks, t3 = ctx.call(rot.rotate_qlm_Ds_right, t, ds)
            if oks:
                ctx.close(t3, apply([d.T for d in D], t), rn(t), 2e-12+ang, 'apply right', inp)
            oks, t3 = ctx.call(rot.rotate_qlm_Ds_right, t, ds, True)
            if oks:
                ctx.close(t3, apply([d.conj() for d in D], t), rn(t), 2e-12+ang, 'apply right inverse', inp)
        oks, dd = ctx.call(rot.dlmn, L, b)
        if oks and ctx.expect(len(dd) == L+1, 'small d:count', str(len(dd)), inp):
            for l in range(L+1):
                ctx.close(dd[l], small_d(l, b), 1., 2e-12+ang, 'small d', {'l': l, 'beta': b})
        l = int(rng.integers(0, min(L, 12)+1))
        oks, de = ctx.call(rot.Dl, l, a, b, g)
        if oks:
            ctx.close(de, D[l], 1., 1e-9, 'explicit matrix', {'l': l, **inp})
        m, n = int(rng.integers(-l, l+1)), int(rng.integers(-l, l+1))
        oks, v = ctx.call(rot.Dlmn, l, m, n, a, b, g)
        if oks:
            ctx.close(v, D[l][l+n, l+m], 1., 1e-9, 'explicit entry', {'l': l, 'm': m, 'n': n, 'euler': (a, b, g)})
        # two rotations in a row are their product, by the code alone
        if okr and i % 3 == 0:
            a2, b2, g2 = (float(v) for v in gen.euler(rng))
            R2 = harm.euler_zyz(a2, b2, g2) @ R
            be = float(np.arctan2(np.hypot(R2[0, 2], R2[1, 2]), R2[2, 2]))
            if 1e-3 < be < np.pi-1e-3:
                al, ga = float(np.arctan2(R2[1, 2], R2[0, 2])), float(np.arctan2(R2[2, 1], -R2[2, 0]))
                ok1, x = ctx.call(rot.rotate_qlm, t2, a2, b2, g2)
                ok2, y = ctx.call(rot.rotate_qlm, t, al, be, ga)
                if ok1 and ok2:
                    ctx.close(x, y, rn(t), 1e-10+ang+tolerance(L, a2, b2, g2), 'composition', {'second': (a2, b2, g2), **inp})
