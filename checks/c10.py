"""Inner moments by numerical integration."""
import numpy as np
import newt.qlmNum as qn
from vrt import core, gen, harm, solids as S, refsolids as rs

NAMES = ['cyl_mom', 'cone_mom', 'trap_mom', 'steinmetz', 'platehole']
RULE = ('random dimensions, heights on either side of or across the midplane, any sector, tilts of '
        'both signs, degree 0..3 (0..5 thorough), and 5..7 (to 8) for a few of each; all (l,m) against cubature; '
        'every case counts')
REQUIRE = ['qlmNum.'+n for n in NAMES]
ASSUME = ['judged at 1e-6 of mass*radius^l, scipy tplquad being the routine\'s own integrator with '
          'absolute tolerance 1.5e-8, so dimensions are of order one']


def draw(name, rng, n, k):
    U = lambda a, b: gen.typed(rng, float(rng.uniform(a, b)))
    u = lambda: U(.4, 1.6)
    na = 2*n+14
    if name == 'cyl_mom':
        IR, OR = (0. if k % 4 == 1 else U(.1, .7)), U(.8, 1.5)
        h1 = [U(-1, -.2), U(.1, .6), U(-2, -1.7), 0.][k % 4]
        h2, ph = h1+u(), rs.half(rng)
        ph = max(ph, .05)
        return (ph, IR, OR, h1, h2), S.frustum(h1, h2, OR, OR, IR, IR, 0., ph, n, na)
    if name == 'cone_mom':
        IR, OR = (0. if k % 4 == 1 else U(.1, .7)), U(.8, 1.5)
        H, ph = u(), max(.05, rs.half(rng))
        return (ph, IR, OR, H), S.frustum(0, H, OR, IR, IR, IR, 0., ph, n, na)
    if name == 'trap_mom':
        IR, OR = U(.1, .7), U(.8, 1.5)
        h1 = [U(-1, -.2), U(.1, .6), U(-2, -1.7), 0.][k % 4]
        h2, ph = h1+u(), U(.1, 1.3)
        c, s = np.cos(ph), np.sin(ph)
        poly = [(IR*c, -IR*s), (OR*c, -OR*s), (OR*c, OR*s), (IR*c, IR*s)]
        return (ph, IR, OR, h1, h2), S.prism(poly, h1, h2, n)
    if name == 'steinmetz':
        r = U(.4, 1.)
        R = r*(1. if k % 4 == 1 else U(1.05, 2.5))
        return (r, R), S.cylhole(r, R, n+2, 80)
    t, r, th = u(), u(), (0. if k == 0 else float(rng.uniform(.1, 1.1)*(-1)**k))
    return (t, r, th), S.platehole(t, r, th, n)


DEEP = [('cyl_mom', 7), ('steinmetz', 5), ('cone_mom', 6), ('platehole', 5), ('trap_mom', 6), ('cyl_mom', 6),
        ('cone_mom', 7), ('trap_mom', 5)]


def run(ctx):
    # high degree, few of each
    for i, rng in ctx.rounds(len(DEEP) if type(ctx) is core.Ctx else 0, 4*len(DEEP), 'deep'):
        name, L = DEEP[i % len(DEEP)]
        k = int(rng.integers(8))
        one(ctx, rng, name, k, L+(ctx.thorough and i >= 3*len(DEEP)), 1., 9)
    for i, rng in ctx.rounds(8*len(NAMES), 40*len(NAMES)):
        name = NAMES[(i//8) % len(NAMES)]
        k = i % 8
        L = [1, 3, 2, 3, 0, 2, 3, 3][k] if not ctx.thorough else [0, 3, 4, 5, 4, 5, 3, 4][k]
        rho = float(rng.choice([1., rng.uniform(.3, 3), -rng.uniform(.3, 3)]))
        if i % 5 == 4:
            rho *= 1e4
        one(ctx, rng, name, k, L, rho, 7)


def one(ctx, rng, name, k, L, rho, n):
    args, cub = draw(name, rng, n, k)
    inp = {'shape': name, 'L': L, 'dens': rho, 'args': args}
    ok, q = ctx.call(getattr(qn, name), L, rho, *args, _limit=400)
    if not ok:
        return
    want = harm.inner(L, cub[0], cub[1]*rho)
    l = np.arange(L+1.)
    rmax = max(1., float(np.sqrt((cub[0]**2).sum(1).max())))
    sc = max(abs(rho)*.05, abs(np.sum(cub[1]*rho)))*rmax**l
    ctx.close(q, want, sc[:, None], 1e-6, name+(':deep' if L > 5 else ''), inp)
    ctx.case((name, L, rho, args), True, inp)
