"""Inner Yukawa moments of point arrays."""
import numpy as np
import newt.pg2Multi as pg
from vrt import gen, harm
from checks.c06 import cloud, amp

RULE = ('as for the mass moments, with screening lengths from 1/500 of to 1e4 times the size of the '
        'array, degree 0..16 (and to 40); the reference sums the ascending series of the modified spherical '
        'Bessel functions; non-trivial when a moment beyond the monopole is nonzero')
QUICK = 8       # rounds of the quick tier are multiplied by this
REQUIRE = ['pg2Multi.imoments', 'pg2Multi.imoment']
ASSUME = ['screening lengths shorter than 1/500 of the largest radius are not explored']


def bessel(L, x):
    """i_l(x), l=0..L, by the ascending series in extended precision."""
    x = np.asarray(x, np.longdouble)
    h = x*x/2
    out = []
    df = np.longdouble(1)
    for l in range(L+1):
        if l:
            df = df*(2*l+1)
        term = x**l/df
        tot = term.copy()
        k = 0
        while True:
            k += 1
            term = term*h/(k*(2*l+2*k+1))
            tot = tot+term
            if np.all(term <= 1e-20*tot) or k > 3000:
                break
        out.append(tot)
    return np.array(out)


def run(ctx):
    for i, rng in ctx.rounds(700, 14000):
        L = int(rng.integers(0, 9)) if i % 6 else int(rng.integers(9, 17))
        if i % 40 == 39:
            L = int(rng.integers(17, 41))
        p = cloud(ctx, rng, i, L)[:500]
        r = np.sqrt((p[:, 1:]**2).sum(1))
        R = float(r.max()) or 1.
        lam = R*10**rng.uniform(-1.45 if i % 8 else -2.7, 4 if i % 2 else .7)
        B = np.asarray(bessel(L, r/lam), float)
        u = p[:, 1:]/np.where(r == 0, 1., r)[:, None]
        Y = np.conj(harm.solid(L, u))
        want = np.einsum('lmn,ln->lm', Y, p[:, 0]*B)
        A = amp(p)
        sc = np.array([np.sum(np.abs(p[:, 0])*B[l]*(1+l*A)) for l in range(L+1)])
        sc = sc*np.sqrt(2*np.arange(L+1)+1)
        arr = gen.layout(rng, p)
        inp = {'L': L, 'lambda': lam, 'points': p}
        ok, q = ctx.call(pg.imoments, L, lam, arr)
        if ok:
            ctx.close(q, want, sc[:, None], 1e-13, 'yukawa:table', inp)
            ctx.case((L, lam, p), L > 0 and np.abs(want[1:]).max() > 0, {'L': L, 'lambda': lam, 'n': len(p)})
        l = int(rng.integers(0, L+1))
        m = int(rng.integers(-l, l+1))
        ok, v = ctx.call(pg.imoment, l, m, lam, arr)
        if ok:
            ctx.close(v, want[l, L+m], sc[l], 1e-13, 'yukawa:single', {'l': l, 'm': m, **inp})
        # long screening length: the mass moments come back
        if i % 6 == 1:
            big = R*1e4
            ok, q = ctx.call(pg.imoments, L, big, p)
            if ok:
                q0 = harm.inner(L, p[:, 1:], p[:, 0])
                f = np.cumprod(np.concatenate([[1.], 2*np.arange(1, L+1)+1.]))*big**np.arange(L+1.)
                s0 = np.array([np.sum(np.abs(p[:, 0])*r**k*(1+k*A)) for k in range(L+1)])*np.sqrt(2*np.arange(L+1)+1)
                ctx.close(q*f[:, None], q0, s0[:, None]+np.sum(np.abs(p[:, 0]))*0, 2e-8, 'yukawa:long-range', inp)
