"""Tabulated (degree <= 5) inner moments of homogeneous solids."""
import numpy as np
import newt.qlmACH as ach
from vrt import gen, harm, refsolids as rs

NAMES = ['rect_prism', 'annulus', 'cone', 'cone2', 'tri_prism', 'trapezoid', 'cylindrical_section',
         'tetrahedron', 'cylhole', 'cylhole2', 'platehole', 'pyramid']
RULE = ('random dimensions (aspect 1/16..16, zero or equal sides and radii where allowed, both signs '
        'of tilt and of documented signed lengths), requested degree 0..7; all (l,m) up to 5 against '
        'cubature; non-trivial: every case')
QUICK = 6       # rounds of the quick tier are multiplied by this
REQUIRE = ['qlmACH.'+n for n in NAMES]
ASSUME = ['degrees above 5 are documented as unknown and are not judged']


def run(ctx):
    for i, rng in ctx.rounds(150*len(NAMES), 4000*len(NAMES)):
        name = NAMES[i % len(NAMES)]
        L = int(rng.choice([5, 5, 5, 0, 1, 2, 3, 4, 6, 7]))
        s = gen.scale(rng)
        rho = float(gen.scale(rng)*rng.choice([1, 1, -1]))
        args, cub = rs.draw_ach(name, rng, 6, s, True)
        inp = {'shape': name, 'L': L, 'rho': rho, 'args': args}
        ok, q = ctx.call(getattr(ach, name), L, rho, *args)
        if not ok or not ctx.expect(np.shape(q) == (L+1, 2*L+1), name+':shape', str(np.shape(q)), inp):
            continue
        K = min(L, 5)
        w = cub[1]*rho
        want = harm.inner(K, cub[0], w)
        l = np.arange(K+1.)
        rmax = float(np.sqrt((cub[0]**2).sum(1).max()))
        sc = abs(w.sum())*rmax**l*np.sqrt(2*l+1)
        tol = 1e-11
        if name.startswith('cylhole'):
            r, R = args
            tol = 1e-9
            if name == 'cylhole2':      # cancellation in the elliptic form
                tol = max(tol, 1e-13*(R/r)**8)
        ctx.close(q[:K+1, L-K:L+K+1], want, sc[:, None], tol, name, inp)
        ctx.case((name, L, rho, args), True, {'shape': name, 'L': L, 'args': args})
        if name == 'cylhole':
            # the two closed forms of the same solid
            ok, q2 = ctx.call(ach.cylhole2, L, rho, *args)
            if ok and np.shape(q2) == np.shape(q):
                ctx.close(q2[:K+1, L-K:L+K+1], q[:K+1, L-K:L+K+1], sc[:, None],
                          max(1e-9, 1e-13*(args[1]/args[0])**8), 'cylhole:two-forms', inp)
