"""End to end: bodies built, turned, moved and combined through the library attract as their mass does."""
import numpy as np
import newt.bigQlm as bq
import newt.glib as glb
import newt.multipoleLib as ml
import newt.pg2Multi as pg
import newt.qlm as q
import newt.rotations as ro
import newt.translationRecurs as tr
import newt.translations as tl
from checks.c12 import tolerance
from vrt import field, gen, harm, refsolids as rs, shift, solids as S

NAMES = ['cylinder', 'annulus', 'cone', 'tri_iso_prism', 'tri_iso_prism2', 'tri_prism', 'rect_prism', 'ngon_prism',
         'tetrahedron', 'tetrahedron2', 'pyramid']
RULE = ('random instruments: a sensor of 1..3 solids or point clouds, each turned and moved, then the whole turned '
        'and moved; a source of 1..3 bodies, each turned and carried outside or built outside; degree 5..12; '
        'force, torque, torque after further moves and torque versus angle judged by the pairwise sum over cubature '
        'points of the same bodies, truncation bounded; every case counts')
REQUIRE = ['qlm.'+n for n in NAMES]+['bigQlm.sphere', 'pg2Multi.qmoments', 'pg2Multi.Qmomentsb', 'rotations.rotate_qlm',
                                     'translationRecurs.translate_qlm', 'translationRecurs.translate_q2Q',
                                     'translations.translate_qlm', 'translations.translate_q2Q',
                                     'multipoleLib.multipole_force', 'multipoleLib.torque_lm', 'multipoleLib.torque',
                                     'multipoleLib.torques_at_angle', 'glib.point_matrix_gravity', 'glib.rotate_point_array',
                                     'glib.translate_point_array', 'multipoleLib.embed_qlm']
ASSUME = ['truncation bounded by 100 (L+2)^2 ((a+b)/d)^(L+1) of the sum of the pair forces',
          'a displacement nearly along z may be tilted by the rounding of arccos (3e-8)']


class Tilt:
    lost = 0.

    @classmethod
    def add(cls, L, v):
        cls.lost += 4*shift.pole(v)*(L+1)


class Lost(Exception):
    pass


def must(r):
    if not r[0]:
        raise Lost()
    return r[1]


def part(ctx, rng, L, s, mu):
    """inner moments from the library and the same body as mass points."""
    m = float(rng.uniform(.3, 3)*rng.choice([1, 1, 1, -1])*mu)
    c = int(rng.integers(len(NAMES)+2))
    if c < len(NAMES):
        a, (x, w) = rs.draw(NAMES[c], rng, 6, s)
        t = must(ctx.call(getattr(q, NAMES[c]), L, m, *a))
        p = np.column_stack([w*m/w.sum(), x])
        what = (NAMES[c], m, a)
    else:
        p = gen.points(rng, int(rng.integers(2, 30)), s)
        p[:, 0] *= mu/np.abs(p[:, 0]).max()
        t = must(ctx.call(pg.qmoments, L, p))
        what = ('cloud', p)
    if rng.random() < .8:
        e = tuple(float(x) for x in gen.euler(rng))
        Tilt.lost += tolerance(L, *e)
        t = must(ctx.call(ro.rotate_qlm, t, *e))
        p = field.move(p, harm.euler_zyz(*e))
        what += ('rotate', e)
    return t, p, what


def radius(p):
    return float(np.sqrt((p[:, 1:]**2).sum(1)).max())


def sensor(ctx, rng, L, s, mu):
    tot, pts, log = 0, [], []
    for _ in range(int(rng.integers(1, 4))):
        low = L if rng.random() < .8 else L+1+int(rng.integers(3))   # a longer table, cut down later
        t, p, what = part(ctx, rng, low, s*rng.uniform(.3, 1), mu)
        v = shift.vector(rng, s*10**rng.uniform(-1.5, 0))
        if rng.random() < .8:
            va = np.asarray(v, float)
            mod = tr if rng.random() < .7 or low > 8 else tl
            t = must(ctx.call(mod.translate_qlm, t, v))
            Tilt.add(L, va)
            p = field.move(p, None, va)
            what += ('translate', v)
        t = must(ctx.call(ml.embed_qlm, t, L)) if low != L or rng.random() < .2 else t
        if not ctx.expect(np.shape(t) == (L+1, 2*L+1), 'table shape', np.shape(t), {'body': what}):
            raise Lost()
        tot = tot+t
        pts.append(p)
        log.append(what)
    return tot, np.vstack(pts), log


def source(ctx, rng, L, s, d, mu):
    """outer moments, mass points, radius of the bodies about where they were carried to."""
    tot, pts, log, b = 0, [], [], 0.
    for _ in range(int(rng.integers(1, 4))):
        v = shift.vector(rng, d*float(rng.uniform(1, 2)))
        va = np.asarray(v, float)
        c = rng.random()
        if c < .6:
            t, p, what = part(ctx, rng, L, s*rng.uniform(.3, 1), mu)
            b = max(b, radius(p))
            mod = tr if rng.random() < .7 or L > 8 else tl
            t = must(ctx.call(mod.translate_q2Q, t, v))
            Tilt.add(L, va)
            p = field.move(p, None, va)
            what += ('carry', v)
        elif c < .8:
            R, rho = s*float(rng.uniform(.3, 1)), mu*float(rng.uniform(.3, 3))/s**3
            t = must(ctx.call(bq.sphere, L, rho, R, *va))
            Tilt.add(L, va)
            p = np.array([[rho*4/3*np.pi*R**3, *va]])
            what = ('sphere', rho, R, v)
        else:
            p = gen.points(rng, int(rng.integers(1, 30)), s)
            p[:, 0] *= mu/np.abs(p[:, 0]).max()
            p = must(ctx.call(glb.translate_point_array, p, va))
            t = must(ctx.call(pg.Qmomentsb, L, p))
            what = ('cloud', p)
        tot = tot+t
        pts.append(p)
        log.append(what)
    return tot, np.vstack(pts), log, b


def one(ctx, rng, i):
    L = int(rng.integers(5, 13))
    s = gen.scale(rng, -2, 2)
    d = s*10**rng.uniform(1.3, 2)
    Tilt.lost = 0.
    mu = float(10**rng.uniform(-9, 3))       # the unit of mass
    qs, ps, log = sensor(ctx, rng, L, s, mu)
    Q, pS, slog, b = source(ctx, rng, L, s, d, float(10**rng.uniform(-6, 6)))
    inp = {'L': L, 'sensor': log, 'source': slog}
    ctx.case((L, str(log), str(slog)), True, {'L': L, 'sensor': [w[0] for w in log], 'source': [w[0] for w in slog]})

    def judge(kind, got, pm, what, extra=0.):
        lost = Tilt.lost
        """what: 'force' or 'torque' on the mass points pm."""
        f, mag = field.pairwise(pm, pS)
        r = np.sqrt((pm[:, 1:]**2).sum(1))
        a = radius(pm)+extra
        dd = np.sqrt((pS[:, 1:]**2).sum(1)).min()
        x = (a+b)/dd
        tol = 100*(L+2)**2*x**(L if what == 'force' else L+1)*max(1, x)+1e-8
        M = mag.sum()
        ctx.info['smallest truncation bound'] = min(ctx.info.get('smallest truncation bound', 1.), tol)
        if what == 'force':
            ctx.close(got, f.sum(0), M, tol+lost, kind, inp)
        else:
            ctx.close(got, field.ztorque(pm, f), M*a, tol+lost, kind, inp)
    off = np.zeros(3) if i % 3 == 0 else s*rng.normal(size=3)*.5
    F = must(ctx.call(ml.multipole_force, L, qs, Q, *off))
    judge('force', F, field.move(ps, None, off), 'force', np.sqrt(off @ off))
    nlm, nc, ns = must(ctx.call(ml.torque_lm, qs, Q))
    judge('torque', np.sum(nlm), ps, 'torque')
    th = np.array([gen.typed(rng, t) for t in rng.uniform(-7, 7, 3)])
    T = must(ctx.call(ml.torques_at_angle, nc, ns, th))
    if ctx.expect(np.shape(T) == (3,), 'torque at angle:shape', np.shape(T), inp):
        for k in range(3):
            pr = must(ctx.call(glb.rotate_point_array, ps, th[k], [0, 0, 1]))
            judge('torque at angle', T[k], pr, 'torque')
    e = tuple(float(x) for x in gen.euler(rng))
    Tilt.lost += tolerance(L, *e)
    v = np.asarray(shift.vector(rng, s*10**rng.uniform(-1.5, 0)), float)
    Tilt.add(L, v)
    r = must(ctx.call(ml.torque, qs, Q, e, v))
    pm = field.move(ps, harm.euler_zyz(*e), v)
    judge('torque after a move', np.sum(r[0]), pm, 'torque')
    # the library's own pair sum on the same points
    n1, n2 = ps[:400], pS[:400]
    F, T = must(ctx.call(glb.point_matrix_gravity, n1, n2))
    f, mag = field.pairwise(n1, n2)
    ctx.close(F, f.sum(0), mag.sum(), 1e-11, 'pair force', inp)
    ctx.close(T[2], field.ztorque(n1, f), mag.sum()*radius(n1), 1e-11, 'pair torque', inp)


def run(ctx):
    for i, rng in ctx.rounds(200, 3000):
        try:
            one(ctx, rng, i)
        except Lost:
            continue
