"""Yukawa force and torque between point-mass arrays."""
import numpy as np
import newt.glib as glb
from newt.constants import BIG_G
from vrt import gen

RULE = ('random and hostile array pairs with coupling alpha of either sign and range lambda from '
        '0.02 to 1e8 separations; non-trivial when the unscreened force is not zero')
QUICK = 3       # rounds of the quick tier are multiplied by this
REQUIRE = ['glib.yukawa_array', 'glib.point_matrix_yukawa']
ASSUME = ['V = -alpha G m1 m2 exp(-r/lambda)/r', 'coincident points are excluded']


def ref(a, b, al, lam):
    a = np.atleast_2d(a).astype(np.longdouble)
    b = np.atleast_2d(b).astype(np.longdouble)
    d = b[None, :, 1:4]-a[:, None, 1:4]
    r = np.sqrt(np.sum(d*d, axis=2))
    mag = al*BIG_G*a[:, None, 0]*b[None, :, 0]*np.exp(-r/lam)*(1+r/lam)/r**3
    f = mag[..., None]*d
    F = f.sum(1)
    x = a[:, 1:4]
    T = np.cross(x, F)
    amp = (1+(np.abs(a[:, None, 1:4]).max(2)+np.abs(b[None, :, 1:4]).max(2))/r)*(1+r/lam)
    fs = np.abs(mag)*r
    tiny = 1e-290
    return (F.sum(0).astype(float), T.sum(0).astype(float), float((fs*amp).sum())+tiny,
            float((fs*amp*np.sqrt((x**2).sum(1))[:, None]).sum())+tiny, r)


def energy(a, b, al, lam, shift):
    a = np.atleast_2d(a).astype(np.longdouble)
    b = np.atleast_2d(b).astype(np.longdouble)
    r = np.sqrt(np.sum((b[None, :, 1:4]-a[:, None, 1:4]-shift)**2, axis=2))
    return -np.sum(al*BIG_G*a[:, None, 0]*b[None, :, 0]*np.exp(-r/lam)/r)


def run(ctx):
    for i, rng in ctx.rounds(1500, 40000):
        a, b, tag = gen.pair(rng, i)
        a2, b2 = np.atleast_2d(a), np.atleast_2d(b)
        al = float(rng.choice([1., -1., .01, 10**rng.uniform(-3, 6)]))
        R = float(np.median(np.sqrt(((b2[:, 1:4]-a2[0, 1:4])**2).sum(1))))
        lam = R*10**rng.uniform(-1.7, 3)
        if i % 5 == 0:
            lam = R*10**rng.uniform(6, 8)
        inp = {'mass1': a, 'mass2': b, 'alpha': al, 'lambda': lam}
        F, T, fs, ts, r = ref(a, b, al, lam)
        ok, out = ctx.call(glb.point_matrix_yukawa, a, b, al, lam)
        if ok:
            ctx.close(out[0], F, fs, 1e-12, 'yukawa:force:'+tag, inp)
            ctx.close(out[1], T, ts, 1e-12, 'yukawa:torque:'+tag, inp)
            okr, rev = ctx.call(glb.point_matrix_yukawa, b2, a2, al, lam)
            if okr:
                Fr, Tr, fr, tr, _ = ref(b2, a2, al, lam)
                ctx.close(np.add(out[0], rev[0]), np.zeros(3), fs+fr, 1e-12, 'yukawa:third-law', inp)
                ctx.close(np.add(out[1], rev[1]), np.zeros(3), ts+tr, 1e-11, 'yukawa:torque-balance', inp)
        k, j = int(rng.integers(len(a2))), int(rng.integers(len(b2)))
        F1, _, fs1, _, _ = ref(a2[k], b2, al, lam)
        ok1, f1 = ctx.call(glb.yukawa_array, a2[k], b2, al, lam)
        if ok1:
            ctx.close(f1, F1, fs1, 1e-12, 'yukawa:single', inp)
        F1, _, fs1, _, _ = ref(a2[k], b2[j], al, lam)
        ok1, f1 = ctx.call(glb.yukawa_array, a2[k], b2[j], al, lam)
        if ok1:
            ctx.close(f1, F1, fs1, 1e-12, 'yukawa:single1d', inp)
        # long range: alpha times the Newtonian force, both from the code
        if lam > 1e4*r.max():
            ok3, g = ctx.call(glb.point_matrix_gravity, a, b)
            if ok and ok3:
                ctx.close(out[0], np.multiply(al, g[0]), fs, 10*float((r.max()/lam)**2)+1e-12,
                          'yukawa:newton-limit', inp)
        # minus the gradient of the interaction energy (extended precision differences)
        rm = float(r.min())
        if ok and tag in ('generic', 'special', '2d1d', '1d') and rm > .05*R:
            h = np.longdouble(rm*1e-4*min(1., lam/rm))
            grad = []
            for c in range(3):
                e = np.zeros(3, np.longdouble)
                e[c] = h
                # moving array 1 by +e changes b-a by -e
                d = (8*(energy(a, b, al, lam, e)-energy(a, b, al, lam, -e)) -
                     (energy(a, b, al, lam, 2*e)-energy(a, b, al, lam, -2*e)))/(12*h)
                grad.append(float(-d))
            ctx.close(out[0], np.array(grad), fs, 1e-8, 'yukawa:gradient', inp)
            ctx.events['gradients'] += 1
        ctx.case((a, b, al, lam), fs > 1e-280, {'alpha': al, 'lambda/R': lam/R, 'force': F})
    # shells of bodies one behind the other, each heavy enough to be felt through the screening; long lists
    for i, rng in ctx.rounds(60, 1500, 'screened'):
        n = int(rng.integers(2, 30)) if i % 6 else int(10**rng.uniform(3.5, 5))
        lam = gen.scale(rng, -6, 3)
        near = float(rng.uniform(.1, 30))
        r = near+float(rng.choice([1., 30., 150.]))*rng.random(n)
        u = rng.normal(size=(n, 3))
        u /= np.sqrt((u*u).sum(1))[:, None]
        o = rng.normal(size=3)*lam
        b = np.column_stack([rng.uniform(.5, 2, n)*np.exp(r-near), o+u*(r*lam)[:, None]])
        a = np.array([1., *o])
        al = float(rng.choice([1., -.3]))
        F, T, fs, ts, _ = ref(a, b, al, lam)
        inp = {'mass1': a, 'mass2': b[:50], 'alpha': al, 'lambda': lam}
        ok, out = ctx.call(glb.point_matrix_yukawa, a[None], b, al, lam)
        if ok:
            ctx.close(out[0], F, fs, 1e-12*(1+near/10), 'yukawa:screened', inp)
            ctx.close(out[1], T, ts+1e-300, 1e-12*(1+near/10), 'yukawa:screened', inp)
        ctx.case((n, lam, near), True)
