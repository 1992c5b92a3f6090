"""Translation of inner moments."""
import numpy as np
import newt.translations as tr
import newt.translationRecurs as rec
from vrt import gen, harm, shift
from checks.c12 import table

RULE = ('random mass clouds and symmetric random tables, displacements along, near and off the axes, '
        '1e-3..1e3 times the size, scales 1e-3..1e3, degree 0..21 (summation) / 0..25 (recursive), both '
        'implementations; judged by moving the masses; plus there-and-back and coaxial matrices with '
        'negative displacement; non-trivial when degree>0')
QUICK = 5       # rounds of the quick tier are multiplied by this
REQUIRE = ['translations.translate_qlm', 'translationRecurs.translate_qlm', 'translationRecurs.transl_newt_z_RR',
           'translationRecurs.apply_trans_mat', 'translationRecurs.apply_trans_mat_right']
ASSUME = ['displacements within 1e-7 rad of the z axis judged at the accuracy of arccos']


def run(ctx):
    for i, rng in ctx.rounds(240, 6000):
        both = i % 3 != 2
        L = int(rng.integers(0, 9)) if both else int(rng.integers(6, 26))
        if i % 24 in (1, 13):
            L = int(rng.integers(9, 15)) if i % 24 == 1 else int(rng.integers(14, 22))
        if i % 40 == 38:
            both, L = False, int(rng.integers(26, 51))
        s = gen.scale(rng) if L < 10 else gen.scale(rng, -1, 1)
        v = shift.vector(rng, s*10**rng.uniform(-3, 3 if L < 10 else 1))
        if i % 30 == 6:
            v = [0, 0, 0] if rng.random() < .5 else np.zeros(3)
        n = int(rng.integers(1, 15))
        p = gen.points(rng, n, s)
        gen.heavier(p)
        if i % 4 == 0:
            p[:, 1:] += s*gen.direction(rng)*10**rng.uniform(-1, 1)
        q = harm.inner(L, p[:, 1:], p[:, 0])
        va = np.asarray(v, float)
        r = np.sqrt(va @ va)
        want = harm.inner(L, p[:, 1:]+va, p[:, 0])
        rp = np.sqrt((p[:, 1:]**2).sum(1))
        l = np.arange(L+1)
        sc = np.array([np.sum(np.abs(p[:, 0])*(rp+r)**k) for k in l])[:, None]*np.sqrt(2*l+1)[:, None]
        tol = (1e-13 + 4*shift.pole(v)*max(1, L))*max(1, L)
        inp = {'L': L, 'v': v, 'points': p}
        got = []
        for f in (tr.translate_qlm, rec.translate_qlm) if both else (rec.translate_qlm,):
            k = f.__module__.split('.')[-1]
            ok, t = ctx.call(f, q, v)
            if ok:
                ctx.close(t, want, sc, tol, 'moved masses:'+k, inp)
                got.append(t)
                # and back
                if i % 3 == 0:
                    ok, b = ctx.call(f, t, tuple(-va))
                    if ok:
                        scb = np.array([np.sum(np.abs(p[:, 0])*(rp+2*r)**k2) for k2 in l])[:, None]
                        ctx.close(b, q, scb*np.sqrt(2*l+1)[:, None], 2*tol, 'there and back:'+k, inp)
        ctx.case((L, p, va), L > 0, {'L': L, 'v': v, 'n': n})
        # tables that belong to no cloud of positive masses
        if L <= 8 or i % 6 == 2:
            t = shift.few(rng, shift.symmetric(table(rng, L)))*s**l[:, None]
            w2, mag = shift.inner2inner(t, va)
            tn = np.sqrt((np.abs(t)**2).sum(1))
            rot = np.array([sum(tn[k]*r**(j-k)*np.exp(shift.lf(2*j)/2-shift.lf(2*k)/2-shift.lf(2*j-2*k)/2)*4*np.sqrt((2*j+1)/(2*k+1))
                                for k in range(j+1)) for j in range(L+1)])[:, None]
            for f in (tr.translate_qlm, rec.translate_qlm) if both else (rec.translate_qlm,):
                ok, t2 = ctx.call(f, t, v)
                if ok:
                    ctx.close(t2, w2, np.maximum(mag, rot)+1e-300, tol, 'table:'+f.__module__.split('.')[-1], {'L': L, 'v': v, 'table': t})
        # along the axis, either sense
        dz = float(s*10**rng.uniform(-2, 1)*rng.choice([1, -1]))
        ok, mats = ctx.call(rec.transl_newt_z_RR, L, dz)
        if ok:
            ok, z = ctx.call(rec.apply_trans_mat, q, mats)
            if ok:
                scz = np.array([np.sum(np.abs(p[:, 0])*(rp+abs(dz))**k) for k in l])*np.sqrt(2*l+1)
                ctx.close(z, harm.inner(L, p[:, 1:]+[0, 0, dz], p[:, 0]), scz[:, None], 1e-13*max(1, L), 'coaxial',
                          {'L': L, 'dz': dz, 'points': p})
            transpose(ctx, rng, L, mats, s, False, {'L': L, 'dz': dz})


def transpose(ctx, rng, L, mats, s, flip, inp):
    """left and right application are each other's transpose."""
    a, b = table(rng, L), table(rng, L)
    ok1, ra = ctx.call(rec.apply_trans_mat_right, a, mats, flip)
    ok2, lb = ctx.call(rec.apply_trans_mat, b, mats, flip)
    if ok1 and ok2:
        big = sum(abs(x) for m, M in enumerate(mats) for x in (np.abs(M).sum(),)) if len(mats) else 1.
        m = max(float(np.abs(np.asarray(M)).max(initial=0)) for M in mats)
        lhs = np.sum(a*lb)
        rhs = np.sum(ra*b)
        # bound: sum |a||E||b|
        lim = 0.
        for k in range(L+1):
            for sg in ((1,) if k == 0 else (1, -1)):
                col = L+sg*k
                colb = 2*L-col if flip else col
                lim += float(np.abs(a[k:, colb]) @ np.abs(np.asarray(mats[k])) @ np.abs(b[k:, col]))
        ctx.close(lhs, rhs, lim, 1e-12, 'transpose', inp)
