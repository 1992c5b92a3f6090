"""Refusals: dimensions that describe no solid raise an error, limiting ones do not."""
import contextlib
import io
import os
import numpy as np
import newt.bigQlm as bq
import newt.bigQlmNum as bqn
import newt.gShapeGL as gl
import newt.genCAD as gcad
import newt.glibShapes as gs
import newt.multipoleLib as mp
import newt.pg2Multi as pg2
import newt.qlm as q
import newt.qlmACH as a
import newt.qlmNum as qn
import newt.read_multiFor as rm
import newt.rotations as rot
import newt.shapes as sh
import newt.translationRecurs as tr
from checks.c21 import text
from vrt import gen, harm

pi = np.pi
RULE = ('for every routine: each kind of dimension that describes no solid (zero, negative, swapped, empty or '
        'overfull sector, upright tilt), by a hair and by a lot, the other dimensions random; and every limiting '
        'dimension that does; mismatched tables and unknown kinds of translation; requests with nothing to return; every case counts')
ASSUME = ['only the kinds of dimension each routine is documented or coded to refuse']
NEG = ['zero', 'neg']
SEC = ['zero', 'neg', 'over pi']
TILT = ['upright', 'upright neg']
# routine, valid arguments, {index: ways to spoil it}; 'below i' means smaller than argument i
R = [
    (q.cylinder, 'HR', {0: NEG, 1: NEG}),
    (q.annulus, 'H r R c s', {0: NEG, 1: ['neg', 'above 2', 'equal 2'], 4: SEC}),
    (q.cone, 'H R c s', {0: NEG, 1: NEG, 3: SEC}),
    (q.tri_iso_prism, 'H x x c', {0: NEG, 1: NEG, 2: ['zero']}),
    (q.tri_iso_prism2, 'H x c h', {0: NEG, 1: NEG, 3: ['zero', 'neg', 'over pi/2']}),
    (q.tri_prism, 'H x x y', {0: NEG, 1: ['zero'], 3: ['equal 2']}),
    (q.rect_prism, 'H x x c', {0: NEG, 1: NEG, 2: NEG}),
    (q.ngon_prism, 'H x c N', {0: NEG, 1: NEG, 3: ['no sides']}),
    (q.tetrahedron, 'x x x', {0: NEG, 1: NEG, 2: NEG}),
    (q.tetrahedron2, 'x x y x', {0: NEG, 2: ['equal 1'], 3: NEG}),
    (q.pyramid, 'x x x', {0: NEG, 1: NEG, 2: NEG}),
    (a.rect_prism, 'x x x', {0: NEG, 1: NEG, 2: NEG}),
    (a.annulus, 'H r R c s', {0: NEG, 1: ['above 2', 'equal 2'], 4: SEC}),
    (a.cone, 'H R R', {0: NEG}),
    (a.cone2, 'H R R', {0: NEG}),
    (a.tri_prism, 'H x x y', {0: NEG, 1: ['zero'], 3: ['equal 2']}),
    (a.trapezoid, 'x x x x', {0: NEG, 1: ['neg'], 2: ['neg'], 3: NEG}),
    (a.cylindrical_section, 'x R r', {0: NEG, 2: NEG+['above 1', 'equal 1']}),
    (a.tetrahedron, 'x x x', {0: NEG, 1: NEG, 2: NEG}),
    (a.cylhole, 'r R', {0: NEG+['above 1']}),
    (a.cylhole2, 'r R', {0: NEG+['above 1']}),
    (a.platehole, 'x x t', {0: NEG, 1: NEG, 2: TILT}),
    (a.pyramid, 'x x x', {0: NEG, 1: NEG, 2: NEG}),
    (qn.cyl_mom, 's r R l u', {0: ['zero'], 1: ['above 2'], 3: ['above 4']}),
    (qn.cone_mom, 's r R H', {0: ['zero'], 1: ['above 2'], 3: NEG}),
    (qn.trap_mom, 'h r R l u', {0: ['zero', 'neg', 'upright'], 1: ['above 2'], 3: ['above 4']}),
    (qn.steinmetz, 'r R', {0: NEG+['above 1']}),
    (qn.platehole, 'x x t', {0: NEG, 1: NEG, 2: TILT}),
    (bq.sphere, 'R x x x', {}),
    (bq.annulus, 'H r R c s', {0: ['zero'], 1: ['neg', 'above 2'], 4: SEC}),
    (bqn.annulus, 's r R', {}),
    (bqn.outer_cone, 'H r R s', {0: NEG, 1: ['above 2'], 3: SEC}),
    (bqn.trapezoid, 'l u r R h', {0: ['above 1'], 2: ['above 3'], 4: ['zero', 'neg', 'upright']}),
]
QUICK = 5       # rounds of the quick tier are multiplied by this
REQUIRE = [f'{f.__module__.split(".")[-1]}.{f.__name__}' for f, _, _ in R] + \
    ['refusal', 'limit accepted', 'translationRecurs.apply_trans_mat', 'translationRecurs.apply_trans_mat_right',
     'nothing', 'loaded part of another degree', 'multipoleLib.torque', 'genCAD.outercone', 'read_multiFor.read_mpc']
SLOW = {'qlmNum', 'bigQlmNum'}


def valid(rng, code):
    s = gen.scale(rng, -2, 2)
    R = s*rng.uniform(.5, 2)
    v = []
    for c in code.replace(' ', ''):
        v.append({'H': s*rng.uniform(.2, 2), 'R': R*rng.uniform(1, 1.5), 'r': R*rng.uniform(.1, .9), 'c': rng.uniform(-4, 4),
                  's': rng.uniform(.05, pi), 'h': rng.uniform(.05, 1.5), 'x': s*rng.uniform(.1, 2), 'y': -s*rng.uniform(.1, 2),
                  'N': int(rng.integers(3, 9)), 't': rng.uniform(-1.4, 1.4), 'l': s*rng.uniform(.1, .5),
                  'u': s*rng.uniform(.6, 2)}[c])
    return [x if isinstance(x, int) else float(x) for x in v]


def spoil(rng, v, k, how):
    v = list(v)
    eps = float(rng.choice([1e-6, 1e-3, .5]))
    x = abs(v[k])
    if how == 'zero':
        v[k] = float(rng.choice([0., -0.])) if rng.random() < .5 else 0
    elif how == 'neg':
        v[k] = -x*float(rng.choice([1., 1e-6]))
    elif how == 'no sides':
        v[k] = int(rng.choice([0, -1, -4]))
    elif how == 'over pi':
        v[k] = float(rng.choice([pi*(1+eps), 2*pi]))
    elif how == 'over pi/2':
        v[k] = float(rng.choice([pi/2*(1+eps), pi, 3.]))
    elif how == 'upright':
        v[k] = float(rng.choice([pi/2, pi/2*(1+eps), 2.]))
    elif how == 'upright neg':
        v[k] = -float(rng.choice([pi/2, pi/2*(1+eps), 2.]))
    else:
        w, j = how.split()
        v[k] = v[int(j)] if w == 'equal' else v[int(j)]*(1+eps)
    return v


LIMITS = [  # routine, arguments that do describe a solid
    (q.annulus, lambda s, p: (s, 0., s, p, pi)), (q.annulus, lambda s, p: (s, s*(1-1e-9), s, p, pi)),
    (q.annulus, lambda s, p: (s, 0, s, p, 1e-6)), (q.cone, lambda s, p: (s, s, p, pi)),
    (q.cone, lambda s, p: (s, s, p, 1e-6)), (q.tri_iso_prism, lambda s, p: (s, s, -s, p)),
    (q.tri_iso_prism2, lambda s, p: (s, s, p, 1.57)), (q.tri_prism, lambda s, p: (s, -s, s, 0.)),
    (q.tri_prism, lambda s, p: (s, s, s, 2*s)), (q.tri_prism, lambda s, p: (s, s, -2*s, -s)),
    (q.tetrahedron2, lambda s, p: (s, 0., s, s)), (q.tetrahedron2, lambda s, p: (s, s, 3*s, s)),
    (q.cylinder, lambda s, p: (1e-9*s, s)), (q.rect_prism, lambda s, p: (s, 1e-9*s, s, p)),
    (q.ngon_prism, lambda s, p: (s, s, p, 3)), (a.annulus, lambda s, p: (s, 0., s, p, pi)),
    (a.cone, lambda s, p: (s, 0., s)), (a.cone, lambda s, p: (s, s, 0.)), (a.cone, lambda s, p: (s, s, s)),
    (a.cone2, lambda s, p: (s, 0., s)), (a.cone2, lambda s, p: (s, s, 0.)), (a.cone2, lambda s, p: (s, s, s)),
    (a.tri_prism, lambda s, p: (s, -s, 0., s)), (a.trapezoid, lambda s, p: (s, 0., s, s)),
    (a.trapezoid, lambda s, p: (s, s, 0., s)), (a.trapezoid, lambda s, p: (s, s, s, s)),
    (a.cylhole, lambda s, p: (s, s)), (a.cylhole2, lambda s, p: (s*.999, s)), (a.platehole, lambda s, p: (s, s, 0.)),
    (a.platehole, lambda s, p: (s, s, 1.57)), (a.platehole, lambda s, p: (s, s, -1.57)),
    (a.cylindrical_section, lambda s, p: (s, s, s*.999)), (bq.annulus, lambda s, p: (s, s*.5, s, p, pi)),
    (bq.annulus, lambda s, p: (s, s*.5, s, p, 1e-6)), (bq.sphere, lambda s, p: (s, 0., 0., 3*s)),
]

def run(ctx):
    cases = [(f, c, k, h) for f, c, d in R for k, hs in d.items() for h in hs]
    for i, rng in ctx.rounds(len(cases)*8, len(cases)*120, 'refuse'):
        f, code, k, how = cases[i//8 % len(cases)]
        name = f'{f.__module__.split(".")[-1]}.{f.__name__}'
        g = valid(rng, code)
        v = spoil(rng, g, k, how)
        if name.split('.')[0] not in SLOW or i % 64 == 0:
            ok, t = ctx.call(f, 0, 1., *g, _kind='refused:'+name)
            if ok:
                ctx.expect(np.isfinite(t).all(), 'valid:'+name, t[0], {'args': g})
        L = int(rng.integers(0, 7)) if name.split('.')[0] not in SLOW else 0
        ctx.call(f, L, float(rng.uniform(.1, 3)), *v, _raises=Exception, _kind=f'accepted:{name}:{k} {how}', _limit=60)
        ctx.events['refusal'] += 1
        ctx.case((name, k, how, tuple(v)), True, {'routine': name, 'args': v, 'spoiled': how})
    for i, rng in ctx.rounds(len(LIMITS)*8, len(LIMITS)*40, 'limit'):
        f, mk = LIMITS[i//8 % len(LIMITS)]
        name = f'{f.__module__.split(".")[-1]}.{f.__name__}'
        v = mk(gen.scale(rng, -1, 1), float(rng.uniform(-4, 4)))
        L = int(rng.integers(0, 7))
        ok, t = ctx.call(f, L, 1., *v, _kind='refused:'+name)
        if ok:
            ctx.expect(np.isfinite(t).all() and abs(t[0, t.shape[1]//2]) > 0, 'limit:'+name, t[0], {'args': v})
            ctx.events['limit accepted'] += 1
        ctx.case((name, v), True)
    for i, rng in ctx.rounds(96, 1000, 'other'):
        s = gen.scale(rng, -1, 1)
        c = i // 8 % 12
        L = int(rng.integers(0, 6))
        x = rng.normal(size=3)*s
        if c == 0:
            ctx.call(bq.sphere, L, 1., s, 0., 0., 0., _raises=Exception, _kind='accepted:sphere at the origin')
        elif c == 1:    # an annulus holding the origin has no outer moments
            ctx.call(bqn.annulus, 0, 1., -s, s*float(rng.choice([0, 1.])), float(rng.choice([0., -.1*s])), s, 1.,
                     _raises=Exception, _kind='accepted:annulus round the origin')
        elif c == 2:
            h, o = (-s, s), (s, 2*s)
            bad = [(s, -s, s, 2*s, 1.), (-s, s, 2*s, s, 1.), (-s, s, s, 2*s, 0.), (-s, s, s, 2*s, -1.), (-s, s, s, 2*s, 3.2),
                   (s, 2*s, -2*s, -s, 1.)]
            ctx.call(bqn.annulus, 0, 1., *bad[int(rng.integers(len(bad)))], _raises=Exception, _kind='accepted:outer annulus')
        elif c == 3:
            ctx.call(bqn.trapezoid, 0, 1., -s, s*float(rng.choice([0, 1.])), 0., s, 1., _raises=Exception,
                     _kind='accepted:trapezoid round the origin')
        elif c in (4, 5):
            t = rng.normal(size=(L+1, 2*L+1))+0j
            M = L+int(rng.choice([-1, 1, 2])) if L else L+1
            ok, m = ctx.call(tr.transl_newt_z_RR, M, s)
            if ok:
                ctx.call(tr.apply_trans_mat if c == 4 else tr.apply_trans_mat_right, t, m, _raises=Exception,
                         _kind='accepted:mismatched translation')
        elif c == 6:
            t = rng.normal(size=(L+1, 2*L+1))+0j
            x = [x, np.zeros(3), np.array([0, 0, s])][int(rng.integers(3))]
            ctx.call(mp.torque, t, t, [.1, .2, .3], x, str(rng.choice(['outer-inner', 'inner', '', 'inner_outer', 'Inner-Inner'])),
                     _raises=Exception, _kind='accepted:kind of translation')
        elif c == 7:
            ctx.call(gcad.outercone, True, s, float(rng.choice([0., -s])), 2*s, 1., _raises=Exception, _kind='accepted:drawn cone of no inner radius')
        elif c == 8:
            d = os.environ['VRT_SCRATCH']+'/'
            with open(d+f'c28_{ctx.shard}.mpc', 'w') as f:
                f.write('&BEGIN\ncreate cylinder 2 1 1 0 360 0 1 2\n' if rng.random() < .5 else '')
            ctx.call(rm.read_mpc, 2, f'no_such_file_{i}', d, _raises=Exception, _kind='accepted:missing program')
        elif c == 9:
            ctx.call(rm.read_gsq, f'no_such_file_{i}', os.environ['VRT_SCRATCH']+'/', _raises=Exception, _kind='accepted:missing file')
        elif c == 10:
            ctx.call(a.cone, L, 1., s, 0., 0., _raises=Exception, _kind='accepted:cone of no radius')
            ctx.call(a.cone2, L, 1., s, 0., 0., _raises=Exception, _kind='accepted:cone of no radius')
        else:
            r = float(rng.choice([0., -s]))
            if rng.random() < .5:
                ctx.call(qn.cyl_mom, 0, 1., 1., -2*s, r, 0., s, _raises=Exception, _kind='accepted:no outer radius')
            else:
                ctx.call(qn.cone_mom, 0, 1., 1., -2*s, r, s, _raises=Exception, _kind='accepted:no outer radius')
        ctx.events['refusal'] += 1
        ctx.case((c, L, s), True)
    # where there is nothing to give: an error, or nothing, never the moments or points of something else
    for i, rng in ctx.rounds(160, 2000, 'nothing'):
        s = gen.scale(rng, -2, 2)
        L = int(rng.integers(0, 7))
        c = i // 8 % 5
        p = gen.points(rng, int(rng.integers(1, 12)), s, center=3*s*gen.unit(rng))
        inp = {'L': L}
        if c == 0:
            p[int(rng.integers(len(p))), 1:] = 0.
            m = int(rng.integers(-L, L+1))
            nothing(ctx, 'outer moments at the origin', {'points': p}, pg2.Qmomentsb, L, p)
            nothing(ctx, 'outer moment at the origin', {'points': p}, pg2.Qmomentb, L, m, p)
        elif c == 1:
            L = max(L, 1)
            ok, t = ctx.call(pg2.qmoments, L, p)
            for M in (L-1, L+1, L+3):
                ok, D = ctx.call(rot.wignerDl, M, *rng.uniform(-3, 3, 3))
                if not ok:
                    continue
                for f in (rot.rotate_qlm_Ds, rot.rotate_qlm_Ds_right):
                    v = got(ctx, f, t, D)
                    ctx.expect(v is None or np.array_equal(v, t), 'rotated by matrices of another degree', '', {'L': L, 'matrices': M})
        elif c == 2:
            d, y, h = s*rng.uniform(.3, 2), s*rng.uniform(-1, 1), s*rng.uniform(.3, 2)
            n = [int(v) for v in rng.integers(3, 8, 3)]
            lo = y-s*float(rng.choice([1e-6, 1.]))
            nothing(ctx, 'prism of negative width', {'y1': y, 'y2': lo}, gs.tri_prism, 1., d, y, lo, h, *n)
            nothing(ctx, 'tetrahedron of negative width', {'y1': y, 'y2': lo}, gs.tetrahedron, 1., d, y, lo, h, *n)
            nothing(ctx, 'prism of negative width', {'y1': y, 'y2': lo}, gl.tri_prism, 1., d, y, lo, h, *n)
            b = float(rng.choice([np.pi/2, np.pi/2*(1+1e-6), 2.]))
            v = got(ctx, gs.trapezoid, 1., s, 2*s, s, b, n[0], n[2])
            ctx.expect(v is None or not np.any(np.asarray(v)[..., :1]), 'trapezoid of more than half a turn', '', {'beta': b})
        elif c == 3:
            mk = [lambda: sh.RectPrism(L, False, 1., s, s, 2*s, .3), lambda: sh.TriPrism(L, False, 1., s, s, -s, s),
                  lambda: sh.Cone(L, False, 1., s, s, .3, 1.), lambda: sh.NGon(L, False, 1., s, s, .2, 5),
                  lambda: sh.Tetrahedron(L, False, 1., s, -s, s, s), lambda: sh.Pyramid(L, False, 1., s, s, s),
                  lambda: sh.OuterCone(L, True, 1., s, s, 2*s, 1.), lambda: sh.Cylhole(L, False, 1., s, 2*s),
                  lambda: sh.Platehole(5, L, False, 1., s, s, .3)]
            k = int(rng.integers(len(mk)))
            v = got(ctx, mk[k])
            ctx.expect(v is None or not np.any(v.qlm), 'moments of a shape that has none', str(k), inp)
        else:
            M = L+int(rng.choice([1, 2])) if L < 2 else L+int(rng.choice([-1, 1]))
            d = os.environ['VRT_SCRATCH']+'/'
            name = f'c28l{ctx.shard}'
            with open(d+name+'x.gsq', 'w') as f:
                f.write(text(rng, harm.inner(M, p[:, 1:], p[:, 0]), M, True))
            with open(d+name+'.mpc', 'w') as f:
                f.write(f'&BEGIN\nload {name}x\nadd\n&END\n')
            # the part is there and has another degree
            ok, t = ctx.call(rm.read_gsq, name+'x', d)
            if ok and t.shape[0] == M+1:
                ctx.call(rm.read_mpc, L, name, d, _raises=Exception, _kind='accepted:loaded part of another degree')
                ctx.events['loaded part of another degree'] += 1
        ctx.events['nothing'] += 1
        ctx.case((c, L, s), True)


def got(ctx, f, *a):
    """what f returns, None if it refuses."""
    try:
        with contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
            return f(*a)
    except Exception:
        return None


def nothing(ctx, kind, inp, f, *a):
    v = got(ctx, f, *a)
    ctx.events['nothing:'+f.__name__] += 1
    ctx.expect(v is None or not np.any(np.asarray(v)), kind, str(v)[:200], inp)
