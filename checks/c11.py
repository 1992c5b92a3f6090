"""Outer moments of homogeneous solids, tabulated and numerical."""
import numpy as np
import newt.bigQlm as big
import newt.bigQlmNum as bn
from vrt import gen, harm, solids as S, refsolids as rs

RULE = ('random spheres anywhere, annular sections above and below the plane (aspect 1/4..4, inner radius 1e-4..0.9 of the outer, any '
        'sector and orientation), cones and trapezoids; requested degree 0..7 (tabulated, judged to '
        '5), 0..12 (sphere), 0..3 (numerical); all (l,m) against cubature; every case counts')
QUICK = 2       # rounds of the quick tier are multiplied by this
REQUIRE = ['bigQlm.sphere', 'bigQlm.annulus', 'bigQlmNum.annulus', 'bigQlmNum.outer_cone',
           'bigQlmNum.trapezoid']
ASSUME = ['tabulated annulus judged at 1e-11 of sum(w/r^(l+1)) (differences of large terms), '
          'numerical ones at 1e-6']
SHARDS = 8


def num(name, rng):
    IR, OR = gen.typed(rng, rng.uniform(.4, .9)), gen.typed(rng, rng.uniform(1., 1.7))
    h1 = float(rng.choice([rng.uniform(-.8, -.1), 0., rng.uniform(.1, .6)]))
    h2 = h1+gen.typed(rng, rng.uniform(.3, 1.2))
    ph = max(.05, rs.half(rng))
    if name == 'annulus':
        return (h1, h2, IR, OR, ph), S.frustum(h1, h2, OR, OR, IR, IR, 0., ph, 30, 40)
    if name == 'outer_cone':
        return (h2-h1, IR, OR, ph), S.frustum(0, h2-h1, OR, IR, IR, IR, 0., ph, 30, 40)
    ph = gen.typed(rng, rng.uniform(.1, 1.2))
    c, s = np.cos(ph), np.sin(ph)
    # quadrilateral cubature in (x, y/x)
    X, wx = S.gl(IR*c, OR*c, 30)
    T, wt = S.gl(-s/c, s/c, 30)
    P = np.column_stack([np.repeat(X, 30), np.outer(X, T).ravel()])
    return (h1, h2, IR, OR, ph), S.extrude((P, np.outer(wx*X, wt).ravel()), h1, h2, 30)


def outer_annulus(L, H, r0, r1, pc, ph):
    """unit density, from the plane to H: r = e^t, z = r sinh(u), azimuth by hand."""
    t, wt = S.gl(np.log(r0), np.log(r1), 40+int(6*np.log(r1/r0)))
    P, W = [], []
    for a, w in zip(np.exp(t), wt):
        top = np.arcsinh(abs(H)/a)
        u, wu = S.gl(0., top, 24+int(6*top))
        P.append(np.column_stack([np.full(len(u), a), 0*u, np.sign(H)*a*np.sinh(u)]))
        W.append(w*wu*a**3*np.cosh(u))
    P, W = np.vstack(P), np.concatenate(W)
    m = np.arange(-L, L+1)
    az = 2*ph*np.sinc(m*ph/np.pi)*np.exp(1j*m*pc)
    return harm.outer(L, P, W)*az, harm.absbound_outer(L, P, W)*2*ph


def run(ctx):
    for i, rng in ctx.rounds(600, 20000, 'sphere'):
        L = int(rng.integers(0, 13))
        s = gen.scale(rng)
        rho = float(gen.scale(rng)*rng.choice([1, -1]))
        R = s*rs.asp(rng)
        x = gen.direction(rng)*s*10**rng.uniform(-.5, 2)
        inp = {'L': L, 'dens': rho, 'R': R, 'at': x}
        ok, q = ctx.call(big.sphere, L, rho, R, *x)
        if ok:
            m = rho*4/3*np.pi*R**3
            want = harm.outer(L, x, [m])
            A = 1/max(np.hypot(x[0], x[1])/np.sqrt(x @ x), 3e-9)
            l = np.arange(L+1.)
            sc = harm.absbound_outer(L, x, [m])*np.sqrt(2*l+1)*(1+l*A)
            ctx.close(q, want, sc[:, None], 3e-14, 'sphere', inp)
            ctx.case(('s', L, rho, R, x), True, inp)
    for i, rng in ctx.rounds(240, 5000, 'annulus'):
        L = int(rng.choice([5, 5, 5, 0, 1, 2, 3, 4, 6, 7]))
        s = gen.scale(rng, -2, 2)
        rho = float(gen.scale(rng)*rng.choice([1, 1, -1]))
        r1 = gen.typed(rng, s*float(rng.uniform(1, 2)))
        r0 = gen.typed(rng, r1*float(rng.uniform(.3, .9) if i % 3 else 10**rng.uniform(-4, -.05)))
        H = gen.typed(rng, s*rs.asp(rng))*rng.choice([1, -1])
        pc, ph = rs.centre(rng), rs.half(rng)
        inp = {'L': L, 'dens': rho, 'args': (H, r0, r1, pc, ph)}
        ok, q = ctx.call(big.annulus, L, rho, H, r0, r1, pc, ph)
        if not ok or not ctx.expect(np.shape(q) == (L+1, 2*L+1), 'annulus:shape', str(np.shape(q)), inp):
            continue
        K = min(L, 5)
        want, sc = outer_annulus(K, H, r0, r1, pc, ph)
        want, sc = want*rho, sc*abs(rho)
        amp = max(1., r1/abs(H))**3
        ctx.close(q[:K+1, L-K:L+K+1], want, sc[:, None]*amp, 1e-11, 'annulus', inp)
        ctx.case(('a', L, rho, H, r0, r1, pc, ph), True, inp)
    names = ['annulus', 'outer_cone', 'trapezoid']
    for i, rng in ctx.rounds(24, 240, 'num'):
        name = names[(i//8) % 3]
        L = int(rng.choice([0, 1, 2, 3, 3] if not ctx.thorough else [0, 3, 4, 5]))
        rho = float(rng.choice([1., rng.uniform(.3, 3), -rng.uniform(.3, 3), 1e4]))
        args, cub = num(name, rng)
        inp = {'shape': name, 'L': L, 'dens': rho, 'args': args}
        ok, q = ctx.call(getattr(bn, name), L, rho, *args, _limit=240)
        if ok:
            want = harm.outer(L, cub[0], cub[1]*rho)
            sc = np.maximum(abs(rho)*.05, harm.absbound_outer(L, cub[0], cub[1]*rho))
            ctx.close(q, want, sc[:, None], 1e-6, 'numerical:'+name, inp)
            ctx.case((name, L, rho, args), True, inp)
