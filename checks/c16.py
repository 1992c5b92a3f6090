"""Clebsch-Gordan coefficients."""
import functools
import math
from fractions import Fraction
import numpy as np
import newt.clebschGordan as cg

RULE = ('every quantum-number combination up to j=5 (thorough 7, including impossible ones), random and special '
        'ones (equal degrees, zero and extreme orders) up to 14, larger ones to 40, both routines, judged by the Racah formula in '
        'exact rationals and by orthogonality of the returned numbers; non-trivial when the coefficient is nonzero')
QUICK = 3       # rounds of the quick tier are multiplied by this
REQUIRE = ['clebschGordan.cgCoeff', 'clebschGordan.cgCoeff2']
ASSUME = ['integer quantum numbers, as documented', 'accuracy 1e-10 to j = 14, 1e-6 to j = 40 (alternating sums)']

F = math.factorial


@functools.lru_cache(None)
def exact(j1, j2, m1, m2, J, M):
    if abs(m1) > j1 or abs(m2) > j2 or abs(M) > J or not abs(j1-j2) <= J <= j1+j2 or M != m1+m2:
        return 0.
    sq = Fraction((2*J+1)*F(J+j1-j2)*F(J-j1+j2)*F(j1+j2-J), F(j1+j2+J+1))
    sq *= F(J+M)*F(J-M)*F(j1-m1)*F(j1+m1)*F(j2-m2)*F(j2+m2)
    s = Fraction(0)
    for k in range(j1+j2+J+2):
        d = (k, j1+j2-J-k, j1-m1-k, j2+m2-k, J-j2+m1+k, J-j1-m2+k)
        if min(d) >= 0:
            s += Fraction((-1)**k, math.prod(F(t) for t in d))
    v = s*s*sq
    r = math.isqrt(v.numerator*10**60//v.denominator)/1e30
    return r if s > 0 else -r


def judge(ctx, t, tol=1e-12):
    want = exact(*t)
    for f in (cg.cgCoeff, cg.cgCoeff2):
        ok, v = ctx.call(f, *t)
        if ok:
            ctx.close(v, want, 1., tol, f.__name__, {'j1 j2 m1 m2 J M': t})
    ctx.case(t, want != 0, {'j1 j2 m1 m2 J M': t, 'value': want})


def run(ctx):
    J0 = ctx.pick(5, 7)
    n = 0
    for j1 in range(J0+1):
        for j2 in range(J0+1):
            for m1 in range(-j1-1, j1+2):
                for m2 in range(-j2-1, j2+2):
                    for J in range(max(0, abs(j1-j2)-1), j1+j2+2):
                        n += 1
                        if n % ctx.shards != ctx.shard:
                            continue
                        judge(ctx, (j1, j2, m1, m2, J, m1+m2))
                        judge(ctx, (j1, j2, m1, m2, J, [m1-m2, m1+m2+1, -m1-m2, 0][n % 4]))
    for i, rng in ctx.rounds(3000, 60000):
        j1, j2 = int(rng.integers(0, 15)), int(rng.integers(0, 15))
        m1, m2 = int(rng.integers(-j1, j1+1)), int(rng.integers(-j2, j2+1))
        if rng.random() < .3:
            m1 = int(rng.choice([-j1, j1, 0]))
        if i % 4 == 3:      # equal degrees, orders zero or extreme
            j2 = int(rng.choice([j1, j1, j2]))
            m1, m2 = int(rng.choice([0, 0, 1, -1, j1, -j1])), int(rng.choice([0, 0, 1, -1, j2, -j2]))
            m1, m2 = max(-j1, min(j1, m1)), max(-j2, min(j2, m2))
        J = int(rng.integers(abs(j1-j2), j1+j2+1))
        if i % 8 == 3:
            J = int(rng.choice([abs(j1-j2), j1+j2, min(max(j1, abs(j1-j2)), j1+j2)]))
        judge(ctx, (j1, j2, m1, m2, J, m1+m2), 1e-10)
        if rng.random() < .1:
            judge(ctx, tuple(int(x) for x in rng.integers(-4, 9, 6)) if j1 % 2 else
                  (j1, j2, m1, m2, j1+j2+1+int(rng.integers(3)), m1+m2), 1e-10)
    for i, rng in ctx.rounds(300, 6000, 'large'):
        # the alternating sum loses digits with j, in any order of summation
        top, tol = [(22, 1e-9), (30, 1e-8), (40, 1e-6)][i % 3]
        j1, j2 = int(rng.integers(10, top+1)), int(rng.integers(0, top+1))
        m1, m2 = int(rng.integers(-j1, j1+1)), int(rng.integers(-j2, j2+1))
        J = int(rng.integers(abs(j1-j2), j1+j2+1))
        if i % 4 == 3:      # stretched, as translations use it
            J = int(rng.choice([j1+j2, abs(j1-j2)]))
            m1, m2 = (m1, m2) if i % 8 == 3 else (int(rng.choice([j1, -j1])), int(rng.choice([j2, -j2])))
        judge(ctx, (j1, j2, m1, m2, J, m1+m2), tol)
    # columns are orthonormal, by the code alone
    for i, rng in ctx.rounds(60, 1500, 'orth'):
        j1, j2 = int(rng.integers(0, 9)), int(rng.integers(0, 9))
        M = int(rng.integers(-j1-j2, j1+j2+1))
        f = (cg.cgCoeff, cg.cgCoeff2)[i % 2]
        Js = [J for J in range(abs(j1-j2), j1+j2+1) if J >= abs(M)]
        ms = [m for m in range(-j1, j1+1) if abs(M-m) <= j2]
        A = np.zeros((len(ms), len(Js)))
        good = True
        for a, m in enumerate(ms):
            for b, J in enumerate(Js):
                ok, v = ctx.call(f, j1, j2, m, M-m, J, M)
                good &= ok
                A[a, b] = v if ok else 0
        if good:
            ctx.close(A.T @ A, np.eye(len(Js)), 1., 1e-10, 'orthonormal:'+f.__name__, {'j1 j2 M': (j1, j2, M)})
