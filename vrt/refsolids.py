"""Random documented solids with their reference cubature.

`draw(name, rng, n, s)` -> (args, cubature): args as the toolkit takes them (after degree
and mass/density), cubature in the documented frame, exact for degree < ~2n.
"""
import numpy as np
from vrt import gen, harm, solids as S


def asp(rng, k=2., wide=False):
    if wide and rng.random() < .2:
        return float(10**rng.uniform(-4, 4))
    return float(2**rng.uniform(-k, k))


def turn(c, phi):
    return S.move(c, harm.rotmat([0, 0, 1], phi))


def half(rng, top=np.pi):
    c = rng.integers(6)
    if c == 0:
        return top
    if c == 1:
        return top/2
    if c == 2:
        return float(10**rng.uniform(-3, -.5))
    return min(top, gen.typed(rng, float(rng.uniform(.05, top))))


def centre(rng):
    c = rng.integers(5)
    if c == 0:
        return 0.
    if c == 1:
        return float(rng.choice([np.pi/2, -np.pi/2, np.pi, -np.pi, 2*np.pi, np.pi/4]))
    return gen.typed(rng, float(rng.uniform(-7, 7)))


def ys(rng, s):
    """two different y values: either order, one sided, symmetric, one zero."""
    c = rng.integers(6)
    a, b = rng.uniform(.2, 2), rng.uniform(.2, 2)
    if abs(a-b) < .1:
        b = a+.3
    y = [(-a, b), (a, -b), (a, b), (-a, -b), (0., b), (-a, a)][int(c)]
    if rng.random() < .3:
        y = y[::-1]
    y = gen.typed(rng, float(y[0]*s)), gen.typed(rng, float(y[1]*s))
    return y if abs(y[1]-y[0]) > .05*s else (float(-a*s), float(b*s))


def tri(d, y1, y2, H, n):
    return S.prism([(0, 0), (d, y1), (d, y2)], -H/2, H/2, n)


def pyr(x, y, z, n):
    """half lengths."""
    return S.cat(S.tet((0, 0, z), (x, y, 0), (-x, y, 0), (x, -y, 0), n),
                 S.tet((0, 0, z), (-x, -y, 0), (-x, y, 0), (x, -y, 0), n))


def ngon_poly(a, N):
    r = a/2/np.sin(np.pi/N)
    return [(r*np.cos((2*k+1)*np.pi/N), r*np.sin((2*k+1)*np.pi/N)) for k in range(N)]


def flatplate(t, r, th, n=10, na=None):
    """flat plate about the xy plane, hole of radius r along (sin th,0,cos th)."""
    x, w = S.frustum(-t/2, t/2, r, r, n=n, na=na)
    x = x.copy()
    x[:, 0] = x[:, 0]/np.cos(th)+x[:, 2]*np.tan(th)
    return x, w/np.cos(th)


def draw(name, rng, n, s, wide=False):
    """wide: needles, sheets, pinholes, thin shells and slivers too (condition() says how thin)."""
    na = 2*n+14
    u = lambda: gen.typed(rng, float(s*asp(rng, wide=wide)))
    if name == 'cylinder':
        H, R = u(), u()
        return (H, R), S.annulus(H, 0., R, n=n)
    if name == 'annulus':
        H, Ro = u(), u()
        Ri = float(rng.choice([0., Ro*rng.uniform(.05, .98)]))
        if wide and rng.random() < .3:
            Ri = Ro*float(rng.choice([10**rng.uniform(-5, -1), 1-10**rng.uniform(-5, -1)]))
        pc, ph = centre(rng), half(rng)
        return (H, Ri, Ro, pc, ph), S.annulus(H, Ri, Ro, pc, ph, n=n, na=na)
    if name == 'cone':
        H, R = u(), u()
        pc, ph = centre(rng), half(rng)
        return (H, R, pc, ph), S.frustum(0, H, R, 0, phic=pc, phih=ph, n=n, na=na)
    if name == 'tri_iso_prism':
        H, a, d, pc = u(), u(), u()*rng.choice([1, 1, -1]), centre(rng)
        return (H, a, d, pc), turn(tri(d, a/2, -a/2, H, n), pc)
    if name == 'tri_iso_prism2':
        H, R, pc, ph = u(), u(), centre(rng), float(rng.uniform(.05, 1.5)) if not wide or rng.random() < .8 else float(rng.choice([10**rng.uniform(-4, -1), np.pi/2-10**rng.uniform(-3, -1)]))
        return (H, R, pc, ph), turn(tri(R*np.cos(ph), R*np.sin(ph), -R*np.sin(ph), H, n), pc)
    if name == 'tri_prism':
        H, d = u(), u()*rng.choice([1, 1, -1])
        y1, y2 = ys(rng, s)
        if wide and rng.random() < .15:
            y2 = y1+float(rng.choice([1, -1])*10**rng.uniform(-4, -1))*s
        return (H, d, y1, y2), tri(d, y1, y2, H, n)
    if name == 'rect_prism':
        H, a, b, pc = u(), u(), u(), centre(rng)
        return (H, a, b, pc), turn(S.box(a, b, H, n), pc)
    if name == 'ngon_prism':
        H, a, pc, N = u(), u(), centre(rng), int(rng.integers(3, 10)) if not wide or rng.random() < .8 else int(rng.integers(10, 60))
        return (H, a, pc, N), turn(S.prism(ngon_poly(a, N), -H/2, H/2, n), pc)
    if name == 'tetrahedron':
        x, y, z = u(), u(), u()
        return (x, y, z), S.tet((0, 0, 0), (x, 0, 0), (0, y, 0), (0, 0, z), n)
    if name == 'tetrahedron2':
        x, z = u(), u()
        y1, y2 = ys(rng, s)
        if wide and rng.random() < .15:
            y2 = y1+float(rng.choice([1, -1])*10**rng.uniform(-4, -1))*s
        return (x, y1, y2, z), S.tet((0, 0, 0), (x, y1, 0), (x, y2, 0), (0, 0, z), n)
    if name == 'pyramid':
        x, y, z = u(), u(), u()
        return (x, y, z), pyr(x, y, z, n)
    raise KeyError(name)


def condition(name, args):
    """how far the difference of two nearly equal dimensions magnifies rounding."""
    if name == 'annulus':
        return args[2]/(args[2]-args[1])
    if name in ('tri_prism', 'tetrahedron2'):
        y = args[2:4] if name == 'tri_prism' else args[1:3]
        return max(abs(v) for v in y)/abs(y[1]-y[0])
    return 1.


def draw_ach(name, rng, n, s, wide=False):
    """the density-normalised table: args after (LMax, rho); degree <= 5."""
    na = 2*n+14
    u = lambda: gen.typed(rng, float(s*asp(rng, wide=wide)))
    if name == 'rect_prism':
        x, y, z = u(), u(), u()
        return (x, y, z), S.box(x, y, z, n)
    if name == 'annulus':
        return draw('annulus', rng, n, s, wide)
    if name in ('cone', 'cone2'):
        h, r1, r2 = u(), u(), u()
        if rng.random() < .25:
            r1, r2 = [(r1, 0.), (0., r2)][int(rng.integers(2))]
        if name == 'cone':
            return (h, r1, r2), S.frustum(-h/2, h/2, r2, r1, n=n)
        return (h, r1, r2), S.frustum(0, h, r1, r2, n=n)
    if name == 'tri_prism':
        return draw('tri_prism', rng, n, s, wide)
    if name == 'trapezoid':
        t, w1, w2, h = u(), u(), u(), u()
        c = rng.integers(5)
        if c == 0:
            w1 = 0.
        elif c == 1:
            w2 = 0.
        elif c == 2:
            w2 = w1
        return (t, w1, w2, h), trap(t, w1, w2, h, n)
    if name == 'cylindrical_section':
        t, r = u(), u()
        d = r*float(rng.uniform(.03, .95))
        return (t, r, d), S.segment(r, d, t, n)
    if name == 'tetrahedron':
        return draw('tetrahedron', rng, n, s, wide)
    if name in ('cylhole', 'cylhole2'):
        r = u()
        R = r*float(rng.choice([1., 1+rng.uniform(.02, 3)]))
        if wide and rng.random() < .3:
            R = r*float(1+10**rng.uniform(-5, 2 if name == 'cylhole' else .5))
        return (r, R), S.move(S.cylhole(r, R, n, 80), harm.rotmat([0, 0, 1], np.pi/2))
    if name == 'platehole':
        t, r, th = u(), u(), float(rng.choice([0., rng.uniform(-1.3, 1.3), rng.uniform(-1.57, 1.57) if wide else 1.]))
        return (t, r, th), flatplate(t, r, th, n)
    if name == 'pyramid':
        h, x, y = u(), u(), u()
        return (h, x, y), pyr(x/2, y/2, h, n)
    raise KeyError(name)


def trap(t, w1, w2, h, n):
    poly = [(0, -w1/2), (h, -w2/2), (h, w2/2), (0, w1/2)]
    if w1 == 0:
        poly = poly[:3]
    elif w2 == 0:
        poly = [poly[0], poly[1], poly[3]]
    return S.prism(poly, -t/2, t/2, n)
