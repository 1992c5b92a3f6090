"""Closed-form inner moments of homogeneous solids, any degree."""
import numpy as np
import newt.qlm as qlm
from vrt import gen, harm, refsolids as rs

NAMES = ['cylinder', 'annulus', 'cone', 'tri_iso_prism', 'tri_iso_prism2', 'tri_prism', 'rect_prism',
         'ngon_prism', 'tetrahedron', 'tetrahedron2', 'pyramid', 'sphere']
RULE = ('random dimensions (aspect 1/16..16, scales 1e-3..1e3, mixed signs where documented, any '
        'sector and orientation, 3..9 sided prisms), degree 0..20, every (l,m) against a product '
        'Gauss cubature that is exact for the polynomial; non-trivial: every case')
QUICK = 5       # rounds of the quick tier are multiplied by this
REQUIRE = ['qlm.'+n for n in NAMES]
ASSUME = ['tolerance grows as 2.5^l: the formulas are alternating sums, so high degrees are judged '
          'more loosely (1e-13*2.5^l of mass*radius^l)']
GROW = 2.5


def run(ctx):
    for i, rng in ctx.rounds(150*len(NAMES), 2500*len(NAMES)):
        name = NAMES[i % len(NAMES)]
        c = (i//len(NAMES)) % 8
        L = int(rng.integers(0, 9)) if c else int(rng.integers(9, 15 if not ctx.thorough else 21))
        s = gen.scale(rng)
        mass = float(gen.scale(rng)*rng.choice([1, -1]))
        if name == 'sphere':
            args, want = (s,), np.zeros((L+1, 2*L+1), complex)
            want[0, L] = mass/np.sqrt(4*np.pi)
            rmax = s
        else:
            args, cub = rs.draw(name, rng, L//2+3, s, True)
            w = cub[1]*(mass/np.sum(cub[1]))
            want = harm.inner(L, cub[0], w)
            rmax = float(np.sqrt((cub[0]**2).sum(1).max()))
        inp = {'shape': name, 'L': L, 'mass': mass, 'args': args}
        ok, q = ctx.call(getattr(qlm, name), L, mass, *args)
        if not ok:
            continue
        l = np.arange(L+1.)
        sc = abs(mass)*rmax**l*np.sqrt(2*l+1)*GROW**l*rs.condition(name, args)
        ctx.close(q, want, sc[:, None], 2e-14, name+(':high' if L > 8 else ''), inp)
        ctx.case((name, L, mass, args), True, {'shape': name, 'L': L, 'args': args})
        # a lower maximum degree gives the same numbers
        if L > 1 and i % 3 == 0:
            k = int(rng.integers(0, L))
            ok, q2 = ctx.call(getattr(qlm, name), k, mass, *args)
            if ok:
                ctx.close(q2, want[:k+1, L-k:L+k+1], sc[:k+1, None], 2e-14, name+':degree', inp)
