"""Inner moments of a body carried far away become outer moments."""
import numpy as np
import newt.translations as tr
import newt.translationRecurs as rec
from vrt import gen, harm, shift
from checks.c12 import table
from checks.c13 import transpose

RULE = ('random clouds carried along, near and off the axes by 2.5..1000 times their size (arbitrary '
        'lengths for the truncated table), scales 1e-3..1e3, degree 0..16 (summation) / 0..18 (recursive); '
        'judged by moving the masses (truncation bounded) and by the addition theorem on the same '
        'truncated table; non-trivial when degree>0')
QUICK = 2       # rounds of the quick tier are multiplied by this
REQUIRE = ['translations.translate_q2Q', 'translationRecurs.translate_q2Q', 'translationRecurs.transl_newt_z_SR',
           'translationRecurs.apply_trans_mat']
ASSUME = ['displacements within 1e-7 rad of the z axis judged at the accuracy of arccos',
          'zero displacement has no outer moments and is not exercised']


def run(ctx):
    for i, rng in ctx.rounds(160, 4000):
        both = i % 3 != 2
        L = int(rng.integers(0, 6)) if both else int(rng.integers(4, 19))
        if i % 24 in (1, 13):
            L = int(rng.integers(6, 13)) if i % 24 == 1 else int(rng.integers(12, 17))
        if i % 50 == 44:
            both, L = False, int(rng.integers(19, 25))
        s = gen.scale(rng) if L < 10 else gen.scale(rng, -1, 1)
        p = gen.points(rng, int(rng.integers(1, 12)), s)
        gen.heavier(p)
        rp = np.sqrt((p[:, 1:]**2).sum(1))
        q = harm.inner(L, p[:, 1:], p[:, 0])
        near = i % 7 == 6
        v = shift.vector(rng, s*10**(rng.uniform(.4, 2 if L > 9 else 3) if not near else rng.uniform(-.5, .4)))
        va = np.asarray(v, float)
        r = np.sqrt(va @ va)
        trunc, mag = shift.inner2outer(q, va)
        tol = (1e-13+4*shift.pole(v)*max(1, 2*L))*max(1, L)
        inp = {'L': L, 'v': v, 'points': p}
        l = np.arange(L+1.)
        # rotating the table into the displacement's frame mixes orders within a degree
        qn = np.sqrt((np.abs(q)**2).sum(1))
        rot = np.array([sum(qn[k]*r**-(k+j+1.)*np.exp(shift.lf(k+j)-shift.lf(j)-shift.lf(k))*4
                            for k in range(L+1)) for j in range(L+1)])[:, None]
        for f in (tr.translate_q2Q, rec.translate_q2Q) if both else (rec.translate_q2Q,):
            k = f.__module__.split('.')[-1]
            ok, t = ctx.call(f, q, v)
            if not ok:
                continue
            ctx.close(t, trunc, np.maximum(mag, rot), tol, 'table:'+k, inp)
            if not near:
                want = harm.outer(L, p[:, 1:]+va, p[:, 0])
                x = rp/r
                rest = np.array([sum(np.exp(shift.lf(j+h)-shift.lf(j)-shift.lf(h))*x**h
                                     for h in range(L+1, L+81)) for j in range(L+1)])
                lim = (np.abs(p[:, 0])*r**-(l[:, None]+1)*rest).sum(1)[:, None]*(2*l[:, None]+1)**.5*2
                ctx.close(t, want, lim+np.maximum(mag, rot)*tol, 1., 'moved masses:'+k, inp)
        ctx.case((L, p, va), L > 0, {'L': L, 'v': v})
        # tables of any distribution, down to a single moment
        t = shift.few(rng, shift.symmetric(table(rng, L)))*s**l[:, None]
        w, mag = shift.inner2outer(t, va)
        qn = np.sqrt((np.abs(t)**2).sum(1))
        rot = np.array([sum(qn[k]*r**-(k+j+1.)*np.exp(shift.lf(k+j)-shift.lf(j)-shift.lf(k))*4
                            for k in range(L+1)) for j in range(L+1)])[:, None]
        for f in (tr.translate_q2Q, rec.translate_q2Q) if both else (rec.translate_q2Q,):
            ok, g = ctx.call(f, t, v)
            if ok:
                ctx.close(g, w, np.maximum(mag, rot)+1e-300, tol, 'any table:'+f.__module__.split('.')[-1],
                          {'L': L, 'v': v, 'table': t})
        dz = float(s*10**rng.uniform(.4, 1)*rng.choice([1, -1]))
        ok, mats = ctx.call(rec.transl_newt_z_SR, L, dz)
        if ok:
            ok, z = ctx.call(rec.apply_trans_mat, q, mats, q2Q=True)
            if ok:
                w, mag = shift.inner2outer(q, [0, 0, dz])
                ctx.close(z, w, mag, 1e-13*max(1, L), 'coaxial', {'L': L, 'dz': dz, 'points': p})
            transpose(ctx, rng, L, mats, s, True, {'L': L, 'dz': dz})
