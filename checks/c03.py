"""Rigid motions of point-mass arrays."""
import numpy as np
import newt.glib as glb
from vrt import gen, harm

RULE = ('random histories of rotations and translations (1..12 steps, hostile angles, axes of any '
        'length, list or array vectors) of 1-D and Nx4 arrays, checked step by step; non-trivial '
        'when some point moves')
QUICK = 6       # rounds of the quick tier are multiplied by this
REQUIRE = ['glib.rotate_point_array', 'glib.translate_point_array']


def run(ctx):
    for i, rng in ctx.rounds(1500, 30000):
        s = gen.scale(rng, -4, 4)
        n = int(rng.integers(1, 60)) if i % 40 else 5000
        a = gen.points(rng, n, s) if rng.random() < .7 else gen.special_points(rng, n, s)
        if rng.random() < .3:
            a[:, 1:] += 10*s*gen.unit(rng)
        kind = int(rng.integers(4))
        if kind == 0:
            a = a[0].copy()
        elif kind == 1:
            a = np.column_stack([rng.integers(1, 9, n), rng.integers(-9, 10, (n, 3))])
            s = 9.
        a = gen.layout(rng, a) if a.ndim == 2 else a
        want = np.array(a, float)
        cur = a
        R = float(np.abs(want[..., 1:]).max()+s)
        steps = int(rng.integers(1, 13))
        log = []
        moved = False
        for k in range(steps):
            before = np.array(cur, copy=True)
            if rng.random() < .6:
                th = float(rng.choice([rng.uniform(-np.pi, np.pi), np.pi, -np.pi, np.pi/2, 0, 2*np.pi,
                                       1e-9, 1e-5, np.pi-1e-7, rng.uniform(-50, 50),
                                       10**rng.uniform(-12, -1), rng.uniform(-1, 1)*10**rng.uniform(2, 6)]))
                th = gen.typed(rng, th)
                ax = gen.direction(rng)*10**rng.uniform(-12, 12)
                if rng.random() < .2:
                    ax = rng.integers(-3, 4, 3)
                    if not ax.any():
                        ax = np.array([0, 0, 1])
                av = ax if rng.random() < .5 else list(np.asarray(ax).tolist())
                av = np.asarray(ax) if rng.random() < .8 else av
                log.append(('rot', th, np.asarray(ax).tolist()))
                try_list = isinstance(av, list)
                ok, new = ctx.call(glb.rotate_point_array, cur, th, av)
                if not ok:
                    break
                M = harm.rotmat(ax, th)
                want = want.copy()
                want[..., 1:] = want[..., 1:] @ M.T
                moved |= abs(np.sin(th/2)) > 1e-12
            else:
                v = gen.direction(rng)*R*10**rng.uniform(-3, .5)
                if rng.random() < .1:
                    v = v*0
                vv = v if rng.random() < .5 else v.tolist()
                log.append(('trans', v.tolist()))
                ok, new = ctx.call(glb.translate_point_array, cur, vv)
                if not ok:
                    break
                want = want.copy()
                want[..., 1:] = want[..., 1:]+v
                R += float(np.abs(v).max())
                moved |= bool(v.any())
            inp = {'array': a, 'history': log}
            if not ctx.expect(np.shape(new) == np.shape(a), 'rigid:shape', str(np.shape(new)), inp):
                break
            ctx.close(new[..., 0], want[..., 0], 0., 1., 'rigid:mass', inp)
            ctx.close(new[..., 1:], want[..., 1:], R, 1e-14*(k+2)*4, 'rigid:position:'+log[-1][0], inp)
            # nothing but this step: judged against its own input too
            if log[-1][0] == 'rot':
                one = before[..., 1:].astype(float) @ harm.rotmat(log[-1][2], log[-1][1]).T
            else:
                one = before[..., 1:].astype(float)+np.array(log[-1][1])
            ctx.close(new[..., 1:], one, R, 1e-14, 'rigid:step:'+log[-1][0], inp)
            cur = new
        ctx.case((a, log), moved, {'n': np.shape(a), 'history': log[:4]})
        # a whole turn in n steps returns, and a rotation undone by its inverse
        if i % 4 == 0:
            m = int(rng.integers(2, 30))
            ax = gen.unit(rng)
            cur = np.array(a, float)
            fine = True
            for k in range(m):
                ok, cur = ctx.call(glb.rotate_point_array, cur, 2*np.pi/m, ax)
                if not ok:
                    fine = False
                    break
            if fine:
                ctx.close(cur, np.array(a, float), R, 1e-13*m, 'rigid:full-turn', {'array': a, 'axis': ax, 'm': m})
