"""Solids as signed functions: g(p) < 0 inside, > 0 outside, roughly a length.

Region(g, lo, hi, cub): bounding box lo..hi (tight) and a reference cubature.
"""
import numpy as np
from vrt import solids


class Region:
    def __init__(self, g, lo, hi, cub):
        self.g, self.lo, self.hi = g, np.array(lo, float), np.array(hi, float)
        self.cub = cub
        self.ext = self.hi-self.lo

    def margin(self):
        return 1e-7*float(self.ext.max())

    def vol(self):
        return solids.volume(self.cub)


def _cyl(p):
    return np.hypot(p[:, 0], p[:, 1]), np.arctan2(p[:, 1], p[:, 0])


def _sector(p, beta):
    """signed distance-like function of |phi| <= beta (beta < pi)."""
    r, q = _cyl(p)
    if beta >= np.pi:
        return np.full(len(p), -np.inf)
    # distance to the nearer half-plane edge
    d = np.where(np.abs(np.abs(q)-beta) < np.pi/2, r*np.sin(np.abs(np.abs(q)-beta)), r)
    return np.where(np.abs(q) <= beta, -d, d)


def slab(p, k, a, b):
    return np.maximum(a-p[:, k], p[:, k]-b)


def sphere(R):
    return Region(lambda p: np.sqrt((p*p).sum(1))-R, [-R]*3, [R]*3, solids.ball(R))


def box(x, y, z):
    h = np.array([x, y, z])/2
    return Region(lambda p: np.max(np.abs(p)-h, axis=1), -h, h, solids.box(x, y, z))


def _secbox(r1, r2, beta):
    if beta < np.pi/2:
        return r1*np.cos(beta), r2, r2*np.sin(beta)
    return r2*np.cos(min(beta, np.pi)), r2, r2


def wedge(r1, r2, t, beta=np.pi):
    def g(p):
        r, _ = _cyl(p)
        return np.max([r1-r if r1 > 0 else np.full(len(p), -np.inf), r-r2, slab(p, 2, -t/2, t/2), _sector(p, beta)], axis=0)
    x0, x1, y = _secbox(r1, r2, beta)
    return Region(g, [x0, -y, -t/2], [x1, y, t/2], solids.annulus(t, r1, r2, 0., beta))


def cone(r1, r2, H, beta=np.pi):
    """sloped from height H at r1 to 0 at r2 (r1=0: cone)."""
    def g(p):
        r, _ = _cyl(p)
        return np.max([r1-r if r1 > 0 else np.full(len(p), -np.inf), slab(p, 2, 0., H), _sector(p, beta),
                       (r-(r2-(r2-r1)*p[:, 2]/H))*H/np.hypot(H, r2-r1)], axis=0)
    x0, x1, y = _secbox(r1, r2, beta)
    return Region(g, [x0, -y, 0], [x1, y, H], solids.frustum(0, H, r2, r1, r1, r1, 0., beta))


def convex(verts, faces_pts, cub):
    """intersection of half spaces given by triples of points; interior point =
    mean of verts."""
    v = np.array(verts, float)
    c = v.mean(0)
    pl = []
    for a, b, d in faces_pts:
        n = np.cross(np.subtract(b, a), np.subtract(d, a))
        n = n/np.sqrt(n @ n)
        if n @ (c-np.asarray(a)) > 0:
            n = -n
        pl.append((n, n @ np.asarray(a, float)))
    return Region(lambda p: np.max([p @ n-k for n, k in pl], axis=0), v.min(0), v.max(0), cub)


def prism(poly, z0, z1):
    lo = [(x, y, z0) for x, y in poly]
    hi = [(x, y, z1) for x, y in poly]
    f = [(lo[0], lo[1], lo[2]), (hi[0], hi[1], hi[2])]
    for i in range(len(poly)):
        j = (i+1) % len(poly)
        f.append((lo[i], lo[j], hi[i]))
    return convex(lo+hi, f, solids.prism(poly, z0, z1))


def tet(*v):
    f = [(v[0], v[1], v[2]), (v[0], v[1], v[3]), (v[0], v[2], v[3]), (v[1], v[2], v[3])]
    return convex(v, f, solids.tet(*v))


def pyramid(x, y, z):
    """half lengths x, y, apex at z."""
    b = [(x, y, 0), (-x, y, 0), (-x, -y, 0), (x, -y, 0)]
    a = (0, 0, z)
    f = [(b[0], b[1], b[2])]+[(b[i], b[(i+1) % 4], a) for i in range(4)]
    cub = solids.cat(solids.tet(b[0], b[1], b[2], a), solids.tet(b[0], b[2], b[3], a))
    return convex(b+[a], f, cub)


def ngon(H, a, N):
    R = a/2/np.sin(np.pi/N)
    # a side's middle is at phi = 0
    poly = [(R*np.cos(np.pi/N*(2*k+1)), R*np.sin(np.pi/N*(2*k+1))) for k in range(N)]
    return prism(poly, -H/2, H/2)


def cylhole(r, R):
    def g(p):
        return np.maximum(np.hypot(p[:, 0], p[:, 1])-r, np.hypot(p[:, 1], p[:, 2])-R)
    return Region(g, [-r, -r, -R], [r, r, R], solids.cylhole(r, R))


def platehole(t, r, th):
    """flat plate of thickness t, hole of radius r along (sin th,0,cos th)."""
    ax = np.array([np.sin(th), 0, np.cos(th)])

    def g(p):
        d = p-np.outer(p @ ax, ax)
        return np.maximum(np.sqrt((d*d).sum(1))-r, np.abs(p[:, 2])-t/2)
    c = solids.frustum(-t/2, t/2, r, r)
    x = c[0].copy()
    x[:, 0] = x[:, 0]/np.cos(th)+x[:, 2]*np.tan(th)
    X = r/np.cos(th)+t/2*abs(np.tan(th))
    return Region(g, [-X, -r, -t/2], [X, r, t/2], (x, c[1]/np.cos(th)))
