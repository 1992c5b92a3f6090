"""Reference cubatures for the solids of the toolkit.

Each function returns (xyz, w): points and *volume* weights, so that
sum(w*f(xyz)) integrates f over the solid.  `n` nodes per direction; exact for
polynomials of total degree < ~2n for the polyhedra and for r,z of the round
solids; spectrally convergent in angle.
"""
import itertools
import numpy as np
from numpy.polynomial.legendre import leggauss


def gl(a, b, n):
    x, w = leggauss(n)
    return .5*(b-a)*x+.5*(a+b), .5*(b-a)*w


def cat(*cs):
    return np.vstack([c[0] for c in cs]), np.concatenate([c[1] for c in cs])


def move(c, R=None, t=None):
    x = c[0]
    if R is not None:
        x = x @ np.asarray(R).T
    if t is not None:
        x = x+np.asarray(t)
    return x, c[1]


def box(x, y, z, n=8):
    """full lengths, centred."""
    X, wx = gl(-x/2, x/2, n)
    Y, wy = gl(-y/2, y/2, n)
    Z, wz = gl(-z/2, z/2, n)
    g = np.array(list(itertools.product(X, Y, Z)))
    w = np.array([a*b*c for a, b, c in itertools.product(wx, wy, wz)])
    return g, w


def tet(v0, v1, v2, v3, n=8):
    """tetrahedron by collapsed coordinates."""
    v0, v1, v2, v3 = [np.asarray(v, float) for v in (v0, v1, v2, v3)]
    u, wu = gl(0, 1, n)
    U, V, W = np.meshgrid(u, u, u, indexing='ij')
    ww = wu[:, None, None]*wu[None, :, None]*wu[None, None, :]
    a = U
    b = V*(1-U)
    c = W*(1-U)*(1-V)
    jac = (1-U)**2*(1-V)
    vol6 = abs(np.linalg.det(np.array([v1-v0, v2-v0, v3-v0])))
    p = v0+a[..., None]*(v1-v0)+b[..., None]*(v2-v0)+c[..., None]*(v3-v0)
    return p.reshape(-1, 3), (ww*jac).ravel()*vol6


def tri2(p0, p1, p2, n=8):
    p0, p1, p2 = [np.asarray(v, float) for v in (p0, p1, p2)]
    u, wu = gl(0, 1, n)
    U, V = np.meshgrid(u, u, indexing='ij')
    w = wu[:, None]*wu[None, :]*(1-U)
    d1, d2 = p1-p0, p2-p0
    A = abs(d1[0]*d2[1]-d1[1]*d2[0])
    p = p0+U[..., None]*d1+(V*(1-U))[..., None]*d2
    return p.reshape(-1, 2), w.ravel()*A


def extrude(c2, z0, z1, n=8):
    Z, wz = gl(z0, z1, n)
    p, w = c2
    P = np.concatenate([np.column_stack([p, np.full(len(p), z)]) for z in Z])
    W = np.concatenate([w*a for a in wz])
    return P, W


def prism(poly, z0, z1, n=8):
    """prism over a star-shaped-from-vertex-0 (convex) polygon."""
    poly = [np.asarray(p, float) for p in poly]
    out = [tri2(poly[0], poly[i], poly[i+1], n) for i in range(1, len(poly)-1)]
    return extrude(cat(*out), z0, z1, n)


def _angles(phic, phih, n):
    """sector phic-phih..phic+phih."""
    if phih >= np.pi*(1-1e-12):
        N = 2*n+2
        return phic+2*np.pi*np.arange(N)/N, np.full(N, 2*phih/N)
    return gl(phic-phih, phic+phih, n+8)


def frustum(z0, z1, ro0, ro1, ri0=0., ri1=0., phic=0., phih=np.pi, n=10, na=None):
    """solid of revolution between straight inner/outer generators
    (ri0->ri1, ro0->ro1 from z0 to z1), sector of half-angle phih about phic."""
    Z, wz = gl(z0, z1, n)
    A, wa = _angles(phic, phih, na or n+4)
    P, W = [], []
    for z, w in zip(Z, wz):
        t = (z-z0)/(z1-z0)
        r, wr = gl(ri0+(ri1-ri0)*t, ro0+(ro1-ro0)*t, n)
        rr, aa = np.meshgrid(r, A, indexing='ij')
        P.append(np.column_stack([(rr*np.cos(aa)).ravel(), (rr*np.sin(aa)).ravel(),
                                  np.full(rr.size, z)]))
        W.append((w*(wr*r)[:, None]*wa[None, :]).ravel())
    return np.vstack(P), np.concatenate(W)


def annulus(H, ri, ro, phic=0., phih=np.pi, n=10, na=None):
    return frustum(-H/2, H/2, ro, ro, ri, ri, phic, phih, n, na)


def ball(R, n=10, ri=0.):
    r, wr = gl(ri, R, n)
    c, wc = gl(-1, 1, n)
    N = 2*n+2
    A = 2*np.pi*np.arange(N)/N
    s = np.sqrt(1-c*c)
    P, W = [], []
    for i in range(n):
        rr, aa = np.meshgrid(r, A, indexing='ij')
        P.append(np.column_stack([(rr*s[i]*np.cos(aa)).ravel(), (rr*s[i]*np.sin(aa)).ravel(),
                                  (rr*c[i]).ravel()]))
        W.append(np.broadcast_to((wr*r*r*wc[i])[:, None]*(2*np.pi/N), rr.shape).ravel())
    return np.vstack(P), np.concatenate(W)


def _disk(r, n, nphi, phi0=-np.pi/2, phi1=np.pi/2):
    """(y, x) nodes of the disk: y = r sin(phi), x in +-r cos(phi)."""
    P, wp = gl(phi0, phi1, nphi)
    T, wt = gl(-1, 1, n)
    c = r*np.cos(P)
    y = np.repeat(r*np.sin(P), n)
    x = (c[:, None]*T[None, :]).ravel()
    w = ((wp*c*c)[:, None]*wt[None, :]).ravel()
    return x, y, w


def cylhole(r, R, n=12, nphi=60):
    """cylinder radius r along z inside the cylinder radius R along x."""
    x, y, w = _disk(r, n, nphi)
    h = np.sqrt(np.maximum(R*R-y*y, 0.))
    T, wt = gl(-1, 1, n)
    X = np.repeat(x, n)
    Y = np.repeat(y, n)
    Z = (h[:, None]*T[None, :]).ravel()
    return np.column_stack([X, Y, Z]), ((w*h)[:, None]*wt[None, :]).ravel()


def segment(r, d, t, n=12, nphi=40):
    """part x > d of the disk of radius r, |z| < t/2."""
    P, wp = gl(0, np.arccos(d/r), nphi)
    T, wt = gl(-1, 1, n)
    s = r*np.sin(P)
    x = np.repeat(r*np.cos(P), n)
    y = (s[:, None]*T[None, :]).ravel()
    w = ((wp*s*s)[:, None]*wt[None, :]).ravel()
    return extrude((np.column_stack([x, y]), w), -t/2, t/2, n)


def platehole(t, r, th, n=12, na=48):
    """cylinder radius r along z cut by a slab of thickness t, z between
    x tan(th) -+ t/(2 cos(th))."""
    x, w = frustum(-t/2, t/2, r, r, n=n, na=na)
    x = x.copy()
    x[:, 2] = x[:, 2]/np.cos(th)+x[:, 0]*np.tan(th)
    return x, w/np.cos(th)


def volume(c):
    return float(np.sum(c[1]))


def com(c):
    return c[1] @ c[0]/np.sum(c[1])


def second(c):
    return (c[0].T*c[1]) @ c[0]/np.sum(c[1])
