"""Coaxial translation of Yukawa moments."""
import functools
import numpy as np
import newt.pg2Multi as pg2
import newt.translationRecurs as tr
from checks.c16 import exact
from vrt import gen, harm

RULE = ('every entry of both coaxial Yukawa matrices, degree 0..8 (10 thorough), displacement times inverse range 1e-3..50 '
        '(regular: and zero), judged by Gaunt sums with exact rational coefficients; moments of random clouds carried along z by the '
        'matrices judged by moving the masses, the truncation shrunk below the tolerance; non-trivial when degree > 0')
QUICK = 6       # rounds of the quick tier are multiplied by this
REQUIRE = ['translationRecurs.transl_yuk_z_RR_recurs', 'translationRecurs.transl_yuk_z_SR_recurs', 'translationRecurs.apply_trans_mat',
           'pg2Multi.imoments']
ASSUME = ['displacements along +z', 'regular functions i_l(kr) Y_lm and singular ones k_l(kr) Y_lm with the Bessel functions of scipy',
          'the singular matrix loses accuracy with the degree (recursion): judged at 1e-13*4^L']


def bessel_i(p, x):
    """ascending series, all terms positive for x > 0."""
    t = 1.
    for j in range(1, p+1):
        t *= x/(2*j+1)
    s, k = t, 0
    while k < 400:
        k += 1
        t *= x*x/2/(k*(2*p+2*k+1))
        s += t
        if abs(t) < 1e-18*abs(s):
            break
    return s


def bessel_k(p, x):
    """finite sum, all terms positive."""
    s, t = 0., 1.
    for j in range(p+1):
        s += t
        t *= (p+j+1)*(p-j)/((j+1)*2*x)
    return np.pi/2*np.exp(-x)/x*s


@functools.lru_cache(None)
def gaunt(l, n, m):
    """((p, (2p+1) int Y_nm P_p conj(Y_lm)), ...)"""
    return tuple((p, (2*p+1)*np.sqrt((2*n+1)/(2*l+1))*exact(n, p, m, 0, l, m)*exact(n, p, 0, 0, l, 0))
                 for p in range(abs(l-n), l+n+1, 2))


def entry(l, n, m, f, kind):
    v = [c*f[p] for p, c in gaunt(l, n, m)]
    s = -1 if kind == 'SR' and l % 2 else 1
    return s*sum(v), sum(abs(x) for x in v)


def run(ctx):
    top = ctx.pick(8, 10)
    for i, rng in ctx.rounds(240, 2400):
        L = int(rng.integers(0, top+1))
        kind = 'RR' if i % 16 < 8 else 'SR'
        x = float(10**rng.uniform(-3, 1.7))
        k = gen.scale(rng, -6, 6)
        if kind == 'RR' and rng.random() < .1:
            x = 0.
        fn = getattr(tr, f'transl_yuk_z_{kind}_recurs')
        inp = {'LMax': L, 'dr': x/k, 'k': k}
        ok, v = ctx.call(fn, L, inp['dr'], k)
        if not ok or not ctx.expect(isinstance(v, tuple) and len(v) == 2 and len(v[1]) == L+1, 'yukawa shape', '', inp):
            continue
        f = [(bessel_i if kind == 'RR' else bessel_k)(p, x) for p in range(3*L+1)]
        tol = 1e-11 if kind == 'RR' else 1e-13*4**max(L, 2)
        for m in range(L+1):
            n = L+1-m
            w = np.array([[entry(l, q, m, f, kind) for q in range(m, L+1)] for l in range(m, L+1)]).reshape(n, n, 2)
            ctx.close(v[1][m], w[..., 0], w[..., 1]+1e-300, tol, f'yukawa {kind} matrix', {**inp, 'm': m})
        col = np.zeros((2*L+1, L+1, 2))
        for m in range(L+1):
            for l in range(m, 2*L-m+1):
                col[l, m] = entry(l, m, m, f, kind)
        ctx.close(v[0], col[..., 0], col[..., 1]+1e-300, tol, f'yukawa {kind} columns', inp)
        ctx.case((kind, L, x), L > 0, inp)
    # the masses themselves
    for i, rng in ctx.rounds(80, 1200, 'move'):
        s = gen.scale(rng, -6, 6)
        p = gen.points(rng, int(rng.integers(1, 12)), s)
        gen.heavier(p)
        lam = s*float(10**rng.uniform(.3, 2))
        dr = float(rng.choice([0., rng.random(), rng.random(), 10**rng.uniform(-9, -2)]))*lam*.5
        L = 10
        ok, q = ctx.call(pg2.imoments, L, lam, p)
        ok2, v = ctx.call(tr.transl_yuk_z_RR_recurs, L, dr, 1/lam)
        if not (ok and ok2):
            continue
        ok, got = ctx.call(tr.apply_trans_mat, q, v[1])
        if not ok:
            continue
        moved = p.copy()
        moved[:, 3] += dr
        r = np.sqrt((moved[:, 1:]**2).sum(1))/lam
        S = harm.solid(3, moved[:, 1:]/lam)
        for l in range(4):
            f = np.array([bessel_i(l, t)/t**l if t else 1/np.prod(np.arange(1, 2*l+2, 2)) for t in r])
            want = (S[l].conj()*f*p[:, 0]).sum(1)
            scale = (np.abs(p[:, 0])*np.array([bessel_i(l, t) for t in r+abs(dr)/lam+1])).sum()
            ctx.close(got[l, L-l:L+l+1], want[3-l:4+l], scale, 1e-12, 'yukawa moved masses',
                      {'degree': L, 'lambda': lam, 'dr': dr, 'points': p})
        ctx.case(('move', lam, dr), True)
