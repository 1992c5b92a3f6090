"""Independent reference for spherical-harmonic moments.

Nothing here uses scipy's special functions or anything from the code under
test: regular solid harmonics are built by the Cartesian three-term recursion.
"""
import math
import numpy as np


def solid(L, xyz):
    """r^l Y_lm for every (l,m); array (L+1, 2L+1, N), column L+m."""
    xyz = np.atleast_2d(np.asarray(xyz, float))
    x, y, z = xyz[:, 0], xyz[:, 1], xyz[:, 2]
    r2 = x*x + y*y + z*z
    s = x + 1j*y
    R = np.zeros((L+1, 2*L+1, len(x)), complex)
    smm = np.ones(len(x), complex)
    for m in range(L+1):
        if m > 0:
            smm = smm*s
        # (-1)^m sqrt((2m+1)!/4pi)/(2^m m!)
        c = (-1)**m*math.exp(.5*math.lgamma(2*m+2)-m*math.log(2)-math.lgamma(m+1))
        c /= math.sqrt(4*math.pi)
        R[m, L+m] = c*smm
        if m+1 <= L:
            R[m+1, L+m] = math.sqrt(2*m+3)*z*R[m, L+m]
        for l in range(m+2, L+1):
            a = math.sqrt((4*l*l-1)/(l*l-m*m))
            b = math.sqrt(((l-1)**2-m*m)/(4*(l-1)**2-1))
            R[l, L+m] = a*(z*R[l-1, L+m]-b*r2*R[l-2, L+m])
    for m in range(1, L+1):
        R[:, L-m] = (-1)**m*np.conj(R[:, L+m])
    return R


def inner(L, xyz, w):
    """q_lm = sum w r^l conj(Y_lm)."""
    return np.conj(solid(L, xyz)) @ np.asarray(w, float)


def outer(L, xyz, w):
    """Q_lm = sum w r^-(l+1) Y_lm."""
    xyz = np.atleast_2d(np.asarray(xyz, float))
    r = np.sqrt(np.sum(xyz**2, 1))
    # scale so that r^(2l+1) never overflows
    u = xyz/r[:, None]
    R = solid(L, u)
    for l in range(L+1):
        R[l] = R[l]*r**-(l+1.)
    return R @ np.asarray(w, float)


def absbound_inner(L, xyz, w):
    """per-l scale sum |w| r^l (an upper bound for |q_lm| up to sqrt((2l+1)/4pi))."""
    r = np.sqrt(np.sum(np.atleast_2d(xyz)[:, :3]**2, 1))
    return np.array([np.sum(np.abs(w)*r**l) for l in range(L+1)])


def absbound_outer(L, xyz, w):
    r = np.sqrt(np.sum(np.atleast_2d(xyz)[:, :3]**2, 1))
    return np.array([np.sum(np.abs(w)*r**-(l+1.)) for l in range(L+1)])


def rotmat(axis, th):
    a = np.asarray(axis, float)
    a = a/np.sqrt(a @ a)
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3)+np.sin(th)*K+(1-np.cos(th))*(K @ K)


def euler_zyz(al, be, ga):
    """z by gamma first, then y by beta, then z by alpha (active, right handed)."""
    return rotmat([0, 0, 1], al) @ rotmat([0, 1, 0], be) @ rotmat([0, 0, 1], ga)
