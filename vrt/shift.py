"""Addition theorems for solid harmonics, on (truncated) moment tables, and
workloads of displacement vectors.  Independent of the code under test."""
import math
import numpy as np
from vrt import gen, harm


def lf(n):
    return math.lgamma(n+1)


def _norm(L, sign):
    N = np.zeros((L+1, 2*L+1))
    for l in range(L+1):
        for m in range(-l, l+1):
            N[l, L+m] = math.exp(.5*math.log(4*math.pi/(2*l+1))+sign*.5*(lf(l-m)+lf(l+m)))
    return N


def inner2inner(q, v):
    """sum_lam R_{l-lam}(x) R_lam(v) on the table; returns (table, sum of |terms|)."""
    L = len(q)-1
    NR = _norm(L, -1)
    A = q*NR
    B = np.conj(harm.solid(L, v)[:, :, 0])*NR
    return _comb(L, lambda l, m, k, u: (A[l-k, L+m-u], B[k, L+u]) if abs(m-u) <= l-k else None,
                 lambda l: range(l+1), NR)


def outer2outer(Q, v):
    L = len(Q)-1
    NS, NR = _norm(L, 1), _norm(L, -1)
    A = Q*NS
    B = np.conj(harm.solid(L, v)[:, :, 0])*NR
    return _comb(L, lambda l, m, k, u: ((-1)**k*A[l+k, L+m+u], B[k, L+u]) if abs(m+u) <= l+k else None,
                 lambda l: range(L-l+1), NS)


def inner2outer(q, v):
    L = len(q)-1
    NR, NS2, NS = _norm(L, -1), _norm(2*L, 1), _norm(L, 1)
    A = q*NR
    v = np.asarray(v, float)
    B = harm.outer(2*L, v, [1.])*NS2
    return _comb(L, lambda l, m, k, u: ((-1)**k*A[k, L+u], B[l+k, 2*L+m+u]),
                 lambda l: range(L+1), NS)


def _comb(L, term, ks, N):
    out = np.zeros((L+1, 2*L+1), complex)
    mag = np.zeros((L+1, 2*L+1))
    for l in range(L+1):
        for m in range(-l, l+1):
            s, a = 0j, 0.
            for k in ks(l):
                for u in range(-k, k+1):
                    t = term(l, m, k, u)
                    if t is not None:
                        t = t[0]*t[1]
                        s += t
                        a += abs(t)
            out[l, L+m] = s/N[l, L+m]
            mag[l, L+m] = a/N[l, L+m]
    return out, mag.max(1)[:, None]


def vector(rng, r):
    """a displacement of length r (sometimes on or near an axis) in some container."""
    c = int(rng.integers(8))
    if c == 0:
        u = np.array([0., 0., 1.])
    elif c == 1:
        u = np.array([0., 0., -1.])
    elif c == 2:
        u = np.zeros(3)
        u[int(rng.integers(2))] = rng.choice([1., -1.])
    elif c == 3:
        u = gen.direction(rng)
    elif c == 4:
        u = np.array([rng.normal(), rng.normal(), 0.])
    elif c == 5:
        u = np.array([rng.normal()*1e-4, rng.normal()*1e-4, rng.choice([1., -1.])])
    else:
        u = gen.unit(rng)
    v = u/np.sqrt(u @ u)*r
    if rng.random() < .25:
        w = np.array([gen.typed(rng, t, 1.) for t in v])
        if w.any() and (w @ w) < 1.5*r*r:
            v = w
    k = int(rng.integers(4))
    return list(map(float, v)) if k == 0 else tuple(map(float, v)) if k == 1 else v


def pole(v):
    """error of arccos(z/r), which every implementation goes through."""
    v = np.asarray(v, float)
    if not v.any():
        return 0.
    s = np.hypot(v[0], v[1])/np.sqrt(v @ v)
    return 0. if s == 0 else min(3e-16/s, 3e-8)


def symmetric(q):
    """a table of moments of a real mass distribution."""
    L = (q.shape[1]-1)//2
    m = np.arange(-L, L+1)
    return (q+(-1.)**np.abs(m)*np.conj(q[:, ::-1]))/2


def few(rng, q):
    """all entries, or a few of them with their mirror images."""
    L = len(q)-1
    if rng.random() < .4:
        return q
    keep = np.zeros(q.shape, bool)
    for _ in range(int(rng.integers(1, 4))):
        l = int(rng.integers(0, L+1)) if rng.random() < .6 else L
        m = int(rng.integers(0, l+1))
        keep[l, L+m] = keep[l, L-m] = True
    return q*keep
