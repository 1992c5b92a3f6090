"""Force between an inner body and outer sources from their moments."""
import numpy as np
import newt.multipoleLib as ml
from vrt import field, gen, harm, shift
from checks.c14 import distant

RULE = ('random inner clouds (up to .1 of the source distance, anywhere) and distant clouds, offsets zero, '
        'on the axes and generic, degree 0..8, G default and given; judged (a) exactly at the same '
        'truncation by differentiating solid harmonics at the displaced masses, (b) by the pairwise sum '
        'with the truncation bounded; every case with a source beyond degree 0 counts')
QUICK = 4       # rounds of the quick tier are multiplied by this
REQUIRE = ['multipoleLib.multipole_force', 'multipoleLib.multipole_force_m']
ASSUME = ['G = 6.67428e-11 as documented for the library']


def run(ctx):
    for i, rng in ctx.rounds(110, 2600):
        L = int(rng.integers(0, 9)) if i % 8 else int(rng.integers(9, 12))
        s = gen.scale(rng)
        src = distant(rng, s)
        if i % 5 == 0:
            src = src[:1]
        a = s*10**rng.uniform(-3, -1)
        p = gen.points(rng, int(rng.integers(1, 8)), a)
        gen.heavier(p)
        if i % 4 == 0:
            p[:, 1:] += a*gen.direction(rng)
        v = shift.vector(rng, a*10**rng.uniform(-1, .3))
        if i % 5 == 1:
            v = [0., 0., 0.] if rng.random() < .7 else [0, 0, 0]
        elif i % 5 == 2:
            v = list(np.array(v))
            v[int(rng.integers(3))] = 0.
        va = np.asarray(v, float)
        q = harm.inner(L, p[:, 1:], p[:, 0])
        Q = harm.outer(L, src[:, 1:], src[:, 0])
        m = field.move(p, None, va)
        f, mag = field.forces(Q, m)
        # the code expands about the body's origin: scale of the terms it sums
        rp = np.sqrt((p[:, 1:]**2).sum(1))
        rv = np.sqrt(va @ va)
        l = np.arange(L+1.)
        Qn = np.sqrt((np.abs(Q)**2).sum(1))
        sc = 4*np.pi*field.G*np.sum(np.abs(p[:, 0])[:, None]*(rp[:, None]+rv)**np.maximum(l-1, 0)*l*np.sqrt(2*l+1)*Qn)
        sc = max(sc, 1e-300)
        inp = {'L': L, 'offset': v, 'inner': p, 'outer': src}
        kw = {}
        k = 1.
        if i % 6 == 5:
            c = float(rng.choice([1., 6.674e-11, 1e3]))
            kw = {'cnst': c}
            k = c/field.G
        ok, F = ctx.call(ml.multipole_force, L, q, Q, *v, **kw)
        if not ok:
            continue
        ctx.case((L, p, src, va), L > 0, {'L': L, 'offset': v})
        ctx.close(F, f.sum(0)*k, sc*k, 1e-12, 'field at the masses', {**inp, **kw})
        ok, Fm = ctx.call(ml.multipole_force_m, L, q, Q, *v, **kw)
        if ok and ctx.expect(np.ndim(Fm) == 2 and np.shape(Fm)[0] == 3, 'by order:shape', str(np.shape(Fm)), inp):
            ctx.close(np.sum(Fm, 1), f.sum(0)*k, sc*k, 1e-12, 'by order', {**inp, **kw})
        # truth: pairwise sum, truncation bounded
        pw, pm = field.pairwise(m, src)
        R = np.sqrt((src[:, 1:]**2).sum(1))
        rm = np.sqrt((m[:, 1:]**2).sum(1))
        x = rm[:, None]/R[None, :]
        tail = np.zeros_like(x)
        for h in range(L+1, L+40):
            tail += (h+1)*x**(h-1.) if h > 0 else 0
        lim = (field.G*np.abs(m[:, None, 0]*src[None, :, 0])/R[None, :]**2*tail*1.5).sum()
        ctx.close(F, pw.sum(0)*k, (lim+1e-12*sc)*k, 1., 'pairwise', {**inp, **kw})
    entries(ctx)


def entries(ctx):
    """every moment contributes by itself: arbitrary tables, and single entries of them."""
    for i, rng in ctx.rounds(60, 1500, 'entries'):
        L = int(rng.integers(1, 8)) if i % 8 else int(rng.integers(8, 15))
        s = 10**rng.uniform(-3, 3)
        l = np.arange(L+1.)[:, None]
        ok = np.abs(np.arange(-L, L+1)) <= l

        def table(sc, n):
            t = (rng.normal(size=ok.shape)+1j*rng.normal(size=ok.shape))*ok*sc
            if n:
                k = np.argwhere(ok)[rng.choice(ok.sum(), n)]
                keep = np.zeros_like(ok)
                keep[k[:, 0], k[:, 1]] = True
                t = t*keep
            return t
        q, Q = table(s**l, [0, 1, 2][i % 3]), table((10*s)**-(l+1), [0, 0, 1, 2][i % 4])
        v = shift.vector(rng, s*10**rng.uniform(-1, .3))
        if i % 5 == 1:
            v = [0., 0., 0.]
        va = np.asarray(v, float)
        w = 4*np.pi*field.G/(2*l+1)*Q
        inp = {'L': L, 'offset': v, 'inner': q, 'outer': Q}

        def want(t):
            tv, mag = shift.inner2inner(t, va)
            mag = np.reshape(mag, (L+1, -1))*ok
            return (np.einsum('ilm,lm->i', field.gradtable(tv), w),
                    gradmag(mag) @ np.abs(w).ravel())
        ok1, F = ctx.call(ml.multipole_force, L, q, Q, *v)
        ok2, Fm = ctx.call(ml.multipole_force_m, L, q, Q, *v)
        a, sc = want(q)
        ctx.case((L, q, Q, va), np.any(a != 0), {'L': L, 'offset': v})
        if ok1:
            ctx.close(F, a, sc+1e-300, 1e-11, 'entries', inp)
        if ok2 and ctx.expect(np.shape(Fm) == (3, 2*L+1), 'by order:shape', str(np.shape(Fm)), inp):
            for m in sorted({-L, 0, L, *map(int, rng.integers(-L, L+1, 3))}):
                t = np.zeros_like(q)
                t[:, L+m] = q[:, L+m]
                a, sc = want(t)
                ctx.close(np.asarray(Fm)[:, m], a, sc+1e-300, 1e-11, 'by order:column', {'m': m, **inp})


def gradmag(mag):
    """sum of the moduli of the terms of each derivative: (3, entries)."""
    D = np.zeros((3, mag.size))
    for k in range(mag.shape[1]):
        t = np.zeros_like(mag, dtype=complex)
        t[:, k] = mag[:, k]
        D += np.abs(field.gradtable(t)).reshape(3, -1)
    return D
