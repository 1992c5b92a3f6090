"""CAD solids: the body drawn is the body the parameters describe."""
import os
import numpy as np
import newt.genCAD as g
from vrt import cad, gen, harm, solids as S, refsolids as rs

DRAW = {'cylinder': 'cylinder', 'annulus': 'annulus', 'tri_iso_prism': 'tri_iso_prism',
        'tri_iso_prism2': 'tri_iso_prism2', 'tri_prism': 'tri_prism', 'rect_prism': 'rect_prism',
        'ngon_prism': 'ngon_prism', 'tetrahedron': 'tetrahedron', 'tetrahedron2': 'tetrahedron2',
        'pyramid': 'pyramid'}
NAMES = list(DRAW)+['sphere', 'cone', 'trapezoid', 'cylhole', 'platehole', 'outercone']
RULE = ('random dimensions, sectors and orientations of every primitive, then 0..3 random rotations and '
        'translations; sums of disjoint and overlapping parts with holes; STL files of single and combined '
        'parts read back; judged by exact volume, centroid and all second moments of the boundary '
        'representation against cubature; every case counts')
QUICK = 2       # rounds of the quick tier are multiplied by this
REQUIRE = ['genCAD.'+n for n in NAMES+['rotate_mesh', 'translate_mesh', 'sum_mesh', 'save_stl']]
ASSUME = ['the geometry kernel\'s own mass properties (1e-6)', 'positive parts come before negative ones in a sum',
          'STL files judged at the exporter\'s 0.01 chord tolerance']


def draw(name, rng, s):
    if name in DRAW:
        return rs.draw(DRAW[name], rng, 5, s)
    u = lambda: s*rs.asp(rng, 1)
    if name == 'sphere':
        R = u()
        return (R,), S.ball(R, 5)
    if name == 'cone':
        H, r2 = u(), u()
        r1 = 0. if rng.random() < .5 else r2*float(10**rng.uniform(-1.5, .5))
        pc, ph = rs.centre(rng), rs.half(rng)
        return (H, r1, r2, pc, ph), S.frustum(0, H, r2, r1, 0, 0, pc, ph, 6, 24)
    if name == 'trapezoid':
        t, w1, w2, h = u(), u(), u(), u()
        return (t, w1, w2, h), rs.trap(t, w1, w2, h, 5)
    if name == 'cylhole':
        r = u()
        R = r*float(1+10**rng.uniform(-1.5, .4))
        return (r, R), S.cylhole(r, R, 8, 160)
    if name == 'platehole':
        t, r, th = u(), u(), float(rng.choice([0., rng.uniform(-1.35, 1.35)]))
        # the plate is flat, the hole tilted
        return (t, r, th), rs.flatplate(t, r, th, 8)
    H, OR = u(), u()
    IR, ph = OR*float(1-10**rng.uniform(-1.5, -.02)), rs.half(rng)
    return (H, IR, OR, ph), S.frustum(0, H, OR, IR, IR, IR, 0, ph, 6, 24)


def moves(ctx, rng, mesh, c, s, inp, k):
    ops = []
    for _ in range(k):
        if rng.random() < .5:
            e = tuple(gen.typed(rng, float(x)) for x in rng.uniform(-7, 7, 3))
            if rng.random() < .3:
                e = tuple(float(x) for x in rng.choice([0., np.pi/2, -np.pi/2, np.pi], 3))
            ops.append(('rotate', e))
            ok, mesh = ctx.call(g.rotate_mesh, mesh, *e)
            c = S.move(c, harm.euler_zyz(*e))
        else:
            v = list(map(float, rng.normal(size=3)*3*s))
            ops.append(('translate', v))
            ok, mesh = ctx.call(g.translate_mesh, mesh, [tuple(v), v, np.array(v)][int(rng.integers(3))])
            c = S.move(c, None, v)
        if not ok:
            return None, c
    inp['moves'] = ops
    return mesh, c


def state(meshes):
    return [(bool(m.pmass), cad.props(m)) for m in meshes]


def kept(ctx, meshes, before, what, inp):
    """the solids handed in are still the caller's: same sign, same body."""
    now = state(meshes)
    for (p, a), (q, b) in zip(now, before):
        ctx.expect(p == q, what+':sign of an argument', f'{q} became {p}', inp)
        ctx.expect(all(np.allclose(x, y, rtol=1e-9, atol=1e-9*abs(np.atleast_1d(y)).max()) for x, y in zip(a, b)),
                   what+':argument moved', f'{b} became {a}', inp)


def run(ctx):
    for i, rng in ctx.rounds(24*len(NAMES), 240*len(NAMES)):
        name = NAMES[(i//8) % len(NAMES)]
        s = gen.scale(rng, -1, 1)
        args, c = draw(name, rng, s)
        pm = bool(rng.random() < .7)
        inp = {'shape': name, 'args': args}
        ok, mesh = ctx.call(getattr(g, name), pm, *args)
        if not ok:
            continue
        ctx.expect(mesh.pmass == pm, 'sign:'+name, f'{mesh.pmass} for {pm}', inp)
        first, was = [mesh], state([mesh])
        mesh, c = moves(ctx, rng, mesh, c, s, inp, int(rng.integers(0, 4)))
        kept(ctx, first, was, 'moves', inp)
        if mesh is None:
            continue
        ctx.expect(mesh.pmass == pm, 'sign after moves:'+name, f'{mesh.pmass} for {pm}', inp)
        # the kernel approximates the curve where two cylinders meet (2e-4 seen, 5e-3 when they almost agree)
        tol = 1e-6 if name != 'cylhole' else 2e-3 if args[1] > 1.12*args[0] else 2e-2
        cad.judge(ctx, mesh, [(1, c)], name, inp, tol)
        ctx.case((name, args), True, inp)
    # combinations
    for i, rng in ctx.rounds(128, 1280, 'sum'):
        s = gen.scale(rng, -1, 1)
        parts, meshes = [], []
        inp = {}
        if i % 2 == 0:          # apart
            n = int(rng.integers(2, 4))
            good = True
            for k in range(n):
                name = str(rng.choice([x for x in NAMES if x not in ('cylhole', 'platehole')]))
                args, c = draw(name, rng, s)
                ok, m = ctx.call(getattr(g, name), True, *args)
                good &= ok
                if ok:
                    v = [40*s*(k+1), 3*s*k, -s*k]
                    ok, m = ctx.call(g.translate_mesh, m, v)
                    good &= ok
                    meshes.append(m)
                    parts.append((1, S.move(c, None, v)))
                    inp[k] = (name, args, v)
            if not good:
                continue
        else:                   # a plate with holes and a boss, boxes aligned or turned together
            a, b, H = (gen.typed(rng, float(x)*s) for x in rng.uniform(2, 4, 3))
            e = tuple(gen.typed(rng, float(x)) for x in rng.uniform(-4, 4, 3))
            spec = [(True, (H, a, b), (0, 0, 0))]
            parts = [(1, S.box(a, b, H, 4))]
            # overlapping boss: sticks out of +x
            p, w, h = .4*a, .5*b, .5*H
            spec.append((True, (h, p, w), (a/2, 0, 0)))
            parts.append((1, S.move(S.box(p/2, w, h, 4), None, (a/2+p/4, 0, 0))))
            # blind hole from -x, partly outside
            spec.append((False, (h, p, w), (-a/2, 0, 0)))
            parts.append((-1, S.move(S.box(p/2, w, h, 4), None, (-a/2+p/4, 0, 0))))
            if rng.random() < .5:       # and one inside
                spec.append((False, (h, .2*a, .2*b), (0, .1*b, 0)))
                parts.append((-1, S.move(S.box(.2*a, .2*b, h, 4), None, (0, .1*b, 0))))
            inp = {'parts': spec, 'euler': e}
            good = True
            for pm, d, v in spec:
                ok, m = ctx.call(g.rect_prism, pm, *d, 0)
                if ok:
                    ok, m = ctx.call(g.translate_mesh, m, v)
                if ok:
                    ok, m = ctx.call(g.rotate_mesh, m, *e)
                good &= ok
                meshes.append(m)
            parts = [(sg, S.move(c, harm.euler_zyz(*e))) for sg, c in parts]
            if not good:
                continue
        if i % 8 == 3:          # a part on its own, a hole among them
            k = int(rng.integers(len(meshes)))
            d, v = spec[k][1:]
            meshes, parts = [meshes[k]], [(1, S.move(S.move(S.box(d[1], d[2], d[0], 4), None, v), harm.euler_zyz(*e)))]
        was, n = state(meshes), len(meshes)
        ok, tot = ctx.call(g.sum_mesh, meshes)
        kept(ctx, meshes, was, 'sum', inp)
        ctx.expect(len(meshes) == n, 'sum:list changed', '', inp)
        if ok:
            cad.judge(ctx, tot, parts, 'sum', inp, 1e-6)
            ctx.expect(tot.pmass, 'sum:sign', '', inp)
            ctx.case(('sum', i, s), True, inp)
        if i % 4 < 2:
            stl(ctx, rng, meshes if rng.random() < .5 else tot if ok else meshes, parts, s, i, inp)
            kept(ctx, meshes, was, 'save', inp)
    for i, rng in ctx.rounds(64, 640, 'stl'):
        s = gen.scale(rng, 0, 1)
        name = NAMES[i % len(NAMES)]
        args, c = draw(name, rng, s)
        ok, m = ctx.call(getattr(g, name), True, *args)
        if ok:
            inp = {'shape': name, 'args': args}
            m, c = moves(ctx, rng, m, c, s, inp, 1)
            if m is not None:
                stl(ctx, rng, m, [(1, c)], s, 1000+i, inp, name)
                ctx.case(('stl', name, args), True, inp)


def stl(ctx, rng, what, parts, s, i, inp, name='sum'):
    from stl import mesh as sm
    f = os.environ['VRT_SCRATCH']+'/m%d_%d' % (ctx.shard, i)
    ok, _ = ctx.call(g.save_stl, what, f)
    if not ok or not ctx.expect(os.path.exists(f+'.stl'), 'stl:file', 'not written', inp):
        return
    ok, r = ctx.call(lambda: sm.Mesh.from_file(f+'.stl').get_mass_properties()[:2], _kind='stl:read')
    os.remove(f+'.stl')
    if not ok:
        return
    V = sum(sg*cad.ref(c)[0] for sg, c in parts)
    A = sum(sg*cad.ref(c)[1] for sg, c in parts)
    sv = sum(cad.ref(c)[0] for sg, c in parts)
    # chord error .01 over the surface, and the angular tolerance of the exporter
    x = np.vstack([c[0] for _, c in parts])
    r0 = float(np.sqrt((x*x).sum(1)).max())
    size = sv**(1/3)
    tol = .03+.12/size
    ctx.close(r[0], V, sv, min(tol, .6), 'stl:volume', inp)
    ctx.close(r[0]*r[1], A, sv*(r0+1e-9), min(tol, .6), 'stl:centroid', inp)
