"""Force and torque of a field given by an outer table on point masses, and pairwise sums."""
import math
import numpy as np
from vrt import harm

G = 6.67428e-11


def grad(L, xyz):
    """gradient of conj(r^l Y_lm): array (3, L+1, 2L+1, N)."""
    xyz = np.atleast_2d(np.asarray(xyz, float))
    S = harm.solid(L, xyz)
    D = np.zeros((3,)+S.shape, complex)

    def nrm(l, m):
        return math.exp(.5*math.log(4*math.pi/(2*l+1))-.5*(math.lgamma(l-m+1)+math.lgamma(l+m+1)))

    def R(l, m):
        return S[l, L+m]*nrm(l, m) if 0 <= l and abs(m) <= l else np.zeros(S.shape[2], complex)
    for l in range(1, L+1):
        for m in range(-l, l+1):
            up, dn = R(l-1, m+1), -R(l-1, m-1)     # (dx+i dy)R, (dx-i dy)R
            n = nrm(l, m)
            D[0, l, L+m] = (up+dn)/2/n
            D[1, l, L+m] = (up-dn)/2j/n
            D[2, l, L+m] = R(l-1, m)/n
    return np.conj(D)


def gradtable(q):
    """derivatives of an inner table with respect to a displacement of the body: (3, L+1, 2L+1)."""
    L = len(q)-1
    n = np.zeros((L+1, 2*L+1))
    for l in range(L+1):
        for m in range(-l, l+1):
            n[l, L+m] = math.exp(.5*math.log(4*math.pi/(2*l+1))-.5*(math.lgamma(l-m+1)+math.lgamma(l+m+1)))
    t = np.pad(q*n, ((0, 0), (1, 1)))
    D = np.zeros((3, L+1, 2*L+1), complex)
    for l in range(1, L+1):
        up, dn = t[l-1, 2:], t[l-1, :-2]
        ok = n[l] > 0
        D[0, l, ok] = ((up-dn)[ok]/2/n[l, ok])
        D[1, l, ok] = ((up+dn)[ok]/-2j/n[l, ok])
        D[2, l, ok] = t[l-1, 1:-1][ok]/n[l, ok]
    return D


def forces(Q, p):
    """force on every mass (rows [m,x,y,z]) in the field of the outer table Q: (N,3), and scale."""
    L = len(Q)-1
    D = grad(L, p[:, 1:4])
    w = 4*np.pi*G/(2*np.arange(L+1)+1)[:, None]*Q
    f = np.einsum('ilmn,lm->ni', D, w)*p[:, :1]
    mag = np.einsum('ilmn,lm->ni', np.abs(D), np.abs(w))*np.abs(p[:, :1])
    return f, mag


def pairwise(a, b):
    """force on every mass of a from all masses of b."""
    d = b[None, :, 1:4]-a[:, None, 1:4]
    r = np.sqrt((d*d).sum(2))
    w = G*a[:, None, 0]*b[None, :, 0]/r**3
    return (w[..., None]*d).sum(1), np.abs(w[..., None]*r[..., None]).sum(1)


def ztorque(p, f):
    return (p[:, 1]*f[:, 1]-p[:, 2]*f[:, 0]).sum()


def move(p, R=None, v=(0, 0, 0)):
    p = np.array(p, float)
    if R is not None:
        p[:, 1:4] = p[:, 1:4] @ R.T
    p[:, 1:4] += np.asarray(v, float)
    return p
