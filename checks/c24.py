"""Octave: force and torque between point-mass arrays, and rigid motions of them."""
import numpy as np
from vrt import gen, octave
from checks.c01 import ref

RULE = ('random and hostile array pairs (as for the Python library: scales 1e-9..1e9, long arrays, special '
        'positions) and histories of 1..10 rotations and translations, judged step by step; non-trivial when the '
        'force is not zero by symmetry or a point moves')
QUICK = 3       # rounds of the quick tier are multiplied by this
REQUIRE = ['octave.'+n for n in ('pointMatrixGravity', 'Gmmr2Array', 'vrt_moves')]
ASSUME = ['G is 6.67428e-11 as documented', 'rotations are counter-clockwise as viewed from the origin along the '
          'axis, as documented', 'coincident points of the two arrays are excluded']

MOVES = """function H = vrt_moves(A, ops)
  H = zeros(rows(A), columns(A), rows(ops));
  for k = 1:rows(ops)
    if (ops(k,1) > 0)
      A = rotatePMArray(A, ops(k,5), ops(k,2:4));
    else
      A = translatePMArray(A, ops(k,2:4));
    end
    H(:,:,k) = A;
  end
end
"""


def rot(x, t, u):
    """clockwise about u seen against u = counter-clockwise seen from the origin."""
    u = u/np.sqrt(u @ u)
    t = -t
    return x*np.cos(t)+np.cross(u, x)*np.sin(t)+np.outer(x @ u, u)*(1-np.cos(t))


def run(ctx):
    b = octave.Batch(ctx)
    for i, rng in ctx.rounds(480, 6000):
        m1, m2, tag = gen.pair(rng, i)
        m1, m2 = np.atleast_2d(m1).astype(float), np.atleast_2d(m2).astype(float)
        b.add('pointMatrixGravity', m1, m2, nout=2, tag=('pm', m1, m2, tag))
        k = int(rng.integers(len(m1)))
        b.add('Gmmr2Array', m1[k], m2, tag=('one', m1[k], m2, tag))
        b.add('pointMatrixGravity', m2, m1, nout=2, tag=('rev', m1, m2, tag))
        s = gen.scale(rng)
        A = gen.points(rng, int(rng.integers(1, 30)), s) if i % 3 else gen.special_points(rng, int(rng.integers(1, 8)), s)
        ops = []
        for _ in range(int(rng.integers(1, 11))):
            if rng.random() < .6:
                t = float(rng.choice([rng.uniform(-10, 10), np.pi/2, -np.pi/2, np.pi, 0.]))
                ops.append([1, *(gen.direction(rng)*gen.scale(rng, -9, 9)), t])
            else:
                ops.append([0, *(gen.direction(rng)*s*gen.scale(rng, -1, 1)), 0])
        b.add('vrt_moves', A, np.array(ops), tag=('moves', A, np.array(ops), s))
    ctx.label = None
    force = {}
    for tag, ok, v in b.run([('vrt_moves.m', MOVES)]):
        kind, A, B, x = tag
        inp = {'call': kind, 'a': A, 'b': B}
        if not ok:
            ctx.fail(kind+':exception', v, inp)
            continue
        if kind == 'moves':
            ctx.case((A, B), True, {'points': len(A), 'steps': len(B)})
            p = A[:, 1:].astype(float)
            H = v[0].reshape(len(A), 4, -1)
            size = np.sqrt((p*p).sum(1)).max()
            for k, o in enumerate(B):
                p = rot(p, o[4], o[1:4]) if o[0] else p+o[1:4]
                size = max(size, np.sqrt((p*p).sum(1)).max(), np.sqrt(o[1:4] @ o[1:4]) if not o[0] else 0)
                ctx.close(H[:, 0, k], A[:, 0], np.abs(A[:, 0]), 0, 'masses kept', inp)
                if not ctx.close(H[:, 1:, k], p, size, 1e-14*(k+2), 'rotate' if o[0] else 'translate', inp):
                    break
            continue
        if kind == 'one':
            F, T, fs, ts = ref(A, B)
            ctx.close(v[0].ravel(), F, fs, 1e-13, 'single force', inp)
            continue
        F, T, fs, ts = ref(A, B) if kind == 'pm' else ref(B, A)
        ctx.close(v[0].ravel(), F, fs, 1e-13, 'force:'+x, inp)
        ctx.close(v[1].ravel(), T, ts, 1e-13, 'torque:'+x, inp)
        if kind == 'pm':
            ctx.case((A, B), np.abs(F).max() > 1e-9*fs, {'n1': len(A), 'n2': len(B), 'force': F})
            force[A.tobytes()+B.tobytes()] = v, fs, ts
        elif A.tobytes()+B.tobytes() in force:
            w, fs1, ts1 = force[A.tobytes()+B.tobytes()]
            ctx.close(w[0]+v[0], np.zeros_like(v[0]), fs+fs1, 1e-13, 'third law', inp)
            ctx.close(w[1]+v[1], np.zeros_like(v[1]), ts+ts1, 1e-12, 'torque balance', inp)
