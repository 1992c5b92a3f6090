"""Translation of outer moments."""
import numpy as np
import newt.translations as tr
import newt.translationRecurs as rec
from vrt import gen, harm, shift
from checks.c12 import table
from checks.c13 import transpose

RULE = ('random distant clouds, displacements along, near and off the axes up to a third of the distance '
        '(and arbitrary lengths for the truncated table), scales 1e-3..1e3, degree 0..21 (summation) / '
        '0..22 (recursive); judged by moving the masses (low degrees, truncation bounded) and by the '
        'addition theorem on the same truncated table; non-trivial when degree>0')
QUICK = 4       # rounds of the quick tier are multiplied by this
REQUIRE = ['translations.translate_Qlmb', 'translationRecurs.translate_Qlmb', 'translationRecurs.transl_newt_z_SS',
           'translationRecurs.apply_trans_mat']
ASSUME = ['displacements within 1e-7 rad of the z axis judged at the accuracy of arccos',
          'a table of degree L carries no information beyond L: exactness is relative to that truncation']


def distant(rng, s):
    n = int(rng.integers(1, 12))
    p = gen.points(rng, n, s)
    gen.heavier(p)
    if rng.random() < .5:
        p[:, 1:] += gen.direction(rng)*s*10**rng.uniform(.3, 1)
    r = np.sqrt((p[:, 1:]**2).sum(1))
    p[:, 1:] *= (np.maximum(r, s)/np.where(r == 0, 1, r))[:, None]
    p[np.sqrt((p[:, 1:]**2).sum(1)) < .5*s, 3] = s
    return p


def run(ctx):
    for i, rng in ctx.rounds(200, 5000):
        both = i % 3 != 2
        L = int(rng.integers(0, 9)) if both else int(rng.integers(6, 23))
        if i % 24 in (1, 13):
            L = int(rng.integers(9, 15)) if i % 24 == 1 else int(rng.integers(14, 22))
        if i % 50 == 44:
            both, L = False, int(rng.integers(23, 29))
        s = gen.scale(rng) if L < 10 else gen.scale(rng, -1, 1)
        p = distant(rng, s)
        rp = np.sqrt((p[:, 1:]**2).sum(1))
        rm = rp.min()
        Q = harm.outer(L, p[:, 1:], p[:, 0])
        far = i % 7 == 6
        v = shift.vector(rng, rm*10**(rng.uniform(-3, -.5) if not far else rng.uniform(-.5, 1)))
        if i % 30 == 5:
            v = [0, 0, 0] if rng.random() < .5 else np.zeros(3)
        va = np.asarray(v, float)
        r = np.sqrt(va @ va)
        trunc, mag = shift.outer2outer(Q, va)
        tol = (1e-13+4*shift.pole(v)*max(1, L))*max(1, L)
        inp = {'L': L, 'v': v, 'points': p}
        # rotating the table into the displacement's frame mixes orders within a degree
        l = np.arange(L+1.)
        rot = np.array([sum(np.sqrt((np.abs(Q[k])**2).sum())*r**(k-j) *
                            np.exp(shift.lf(k+j)-shift.lf(2*j)-shift.lf(k-j))*4 for k in range(j, L+1))
                        for j in range(L+1)])[:, None]
        for f in (tr.translate_Qlmb, rec.translate_Qlmb) if both else (rec.translate_Qlmb,):
            k = f.__module__.split('.')[-1]
            ok, t = ctx.call(f, Q, v)
            if not ok:
                continue
            ctx.close(t, trunc, np.maximum(mag, rot), tol, 'table:'+k, inp)
            if not far:
                want = harm.outer(L, p[:, 1:]+va, p[:, 0])
                x = (r/rp)[None, :]
                # tail of the binomial series in r/rp beyond degree L
                rest = np.array([sum(np.exp(shift.lf(j+h)-shift.lf(j)-shift.lf(h))*(x[0]**h)
                                     for h in range(L-j+1, L-j+81)) for j in range(L+1)])
                lim = (np.abs(p[:, 0])*rp**-(l[:, None]+1)*rest).sum(1)[:, None]*(2*l[:, None]+1)**.5*2
                ctx.close(t, want, lim+np.maximum(mag, rot)*tol, 1., 'moved masses:'+k, inp)
        ctx.case((L, p, va), L > 0, {'L': L, 'v': v})
        # tables of any distribution, down to a single moment
        t = shift.few(rng, shift.symmetric(table(rng, L)))*rm**-(l[:, None]+1)
        w, mag = shift.outer2outer(t, va)
        rot = np.array([sum(np.sqrt((np.abs(t[k])**2).sum())*r**(k-j) *
                            np.exp(shift.lf(k+j)-shift.lf(2*j)-shift.lf(k-j))*4 for k in range(j, L+1))
                        for j in range(L+1)])[:, None]
        for f in (tr.translate_Qlmb, rec.translate_Qlmb) if both else (rec.translate_Qlmb,):
            ok, g = ctx.call(f, t, v)
            if ok:
                ctx.close(g, w, np.maximum(mag, rot)+1e-300, tol, 'any table:'+f.__module__.split('.')[-1],
                          {'L': L, 'v': v, 'table': t})
        dz = float(rm*10**rng.uniform(-2, -.5)*rng.choice([1, -1]))
        ok, mats = ctx.call(rec.transl_newt_z_SS, L, dz)
        if ok:
            ok, z = ctx.call(rec.apply_trans_mat, Q, mats)
            if ok:
                w, mag = shift.outer2outer(Q, [0, 0, dz])
                ctx.close(z, w, mag, 1e-13*max(1, L), 'coaxial', {'L': L, 'dz': dz, 'points': p})
            transpose(ctx, rng, L, mats, s, False, {'L': L, 'dz': dz})
