"""Shape objects: moments, mass, centre of mass and drawn solid stay in step through any history."""
import os
import re
import numpy as np
import newt.shapes as sh
from vrt import cad, gen, harm, shift, solids as S, refsolids as rs
from checks.c12 import apply, big_D

EASY = ['Annulus', 'RectPrism', 'TriPrism', 'Cone', 'Sphere', 'NGon', 'Tetrahedron', 'Pyramid']
OUT = ['oAnnulus', 'oSphere', 'oOuterCone']
SLOW = ['Cylhole', 'Platehole']
KERNEL = 2e-3    # the geometry kernel approximates the curve where two cylinders meet
RULE = ('random histories of 1..9 operations (build any shape with positive or negative mass, rotate, '
        'translate, carry inner to outer, add one or several, refused operations) over up to four live objects, '
        'degree 0..5; after every history each object is judged: moments (same truncation, and against the '
        'mass elements where exact), mass, centre of mass, CAD solid, saved file; non-trivial when an '
        'operation followed the build')
QUICK = 2       # rounds of the quick tier are multiplied by this
REQUIRE = ['shapes.'+n for n in EASY]+['step rotate', 'step translate inner', 'step translate outer',
                                       'step inner to outer', 'step add', 'step add list', 'step refused outer to inner', 'step refused mixed add',
                                       'step refused non-shape', 'step save']
ASSUME = ['CAD solid of a sum judged when the parts are apart or a hole lies inside a positive part (overlapping '
          'parts have no agreed mass)', 'sums whose total mass nearly cancels have no useful centre of mass', 'a sum whose holes swallow the whole drawn body is not added to or saved any further',
          'numerically integrated shapes judged at 1e-5']


class Model:
    pass


def table_move(M, R_e=None, v=None, to_outer=False):
    L = M.L
    l = np.arange(L+1.)
    if R_e is not None:
        D = [big_D(k, *R_e) for k in range(L+1)]
        M.tab = apply(D, M.tab) if M.inner else np.conj(apply(D, np.conj(M.tab)))
        return
    r = np.sqrt(v @ v)
    lf = shift.lf
    if M.inner and not to_outer:
        if r:
            M.tab = shift.inner2inner(M.tab, v)[0]
        M.sc = np.array([sum(M.sc[h]*r**(j-h)*np.exp(lf(j)-lf(h)-lf(j-h))*(2*j+1) for h in range(j+1))
                         for j in range(L+1)])
    elif M.inner:
        M.tab = shift.inner2outer(M.tab, v)[0]
        M.sc = np.array([sum(M.sc[h]*r**-(h+j+1.)*np.exp(lf(h+j)-lf(h)-lf(j))*4 for h in range(L+1))
                         for j in range(L+1)])
        M.inner = False
        M.exact = False
    else:
        if r:
            M.tab = shift.outer2outer(M.tab, v)[0]
        M.sc = np.array([sum(M.sc[h]*r**(h-j)*np.exp(lf(h+j)-lf(2*j)-lf(h-j))*4 for h in range(j, L+1))
                         for j in range(L+1)])
        M.exact = False


def build(ctx, rng, kind, L, size=1., sign=1):
    m = float(rng.uniform(.5, 3)*sign)
    n = max(4, L//2+3)
    inner, tol, inrad = True, 1e-11, 0.
    if kind == 'Annulus':
        a, c = rs.draw('annulus', rng, n, size)
        mk = lambda: sh.Annulus(L, inner, m, *a)
    elif kind == 'RectPrism':
        a, c = rs.draw('rect_prism', rng, n, size)
        mk = lambda: sh.RectPrism(L, inner, m, *a)
        inrad = min(a[:3])/2
    elif kind == 'TriPrism':
        a, c = rs.draw('tri_prism', rng, n, size)
        mk = lambda: sh.TriPrism(L, inner, m, *a)
    elif kind == 'Cone':
        a, c = rs.draw('cone', rng, n, size)
        mk = lambda: sh.Cone(L, inner, m, *a)
    elif kind == 'Sphere':
        R = size*rs.asp(rng, 1)
        x = list(map(float, rng.normal(size=3)*size))
        if rng.random() < .3:
            x = [0., 0., 0.]
        a, c = (R, x), S.move(S.ball(R, n), None, x)
        mk = lambda: sh.Sphere(L, inner, m, R, np.array(x) if rng.random() < .5 else x)
        inrad = R
    elif kind == 'NGon':
        a, c = rs.draw('ngon_prism', rng, n, size)
        mk = lambda: sh.NGon(L, inner, m, *a)
    elif kind == 'Tetrahedron':
        a, c = rs.draw('tetrahedron2', rng, n, size)
        mk = lambda: sh.Tetrahedron(L, inner, m, *a)
    elif kind == 'Pyramid':
        a, c = rs.draw('pyramid', rng, n, size)
        mk = lambda: sh.Pyramid(L, inner, m, *a)
    elif kind == 'Cylhole':
        r = size*.5
        R = r*float(1+10**rng.uniform(-1, .3))
        a, c = (r, R), S.cylhole(r, R, n+3, 160)
        mk = lambda: sh.Cylhole(L, inner, m, *a)
        tol = 1e-5
    elif kind == 'Platehole':
        t, r, th = size*rs.asp(rng, .5), size*.5*rs.asp(rng, .5), float(rng.uniform(-.9, .9))
        a, c = (t, r, th), rs.flatplate(t, r, th, n+3)
        mk = lambda: sh.Platehole(3, L, inner, m, *a)
        tol = 1e-5
    elif kind == 'oAnnulus':
        inner = False
        Ro, H = size*float(rng.uniform(1, 2)), size*float(rng.uniform(.5, 2))
        Ri = Ro*float(rng.uniform(.3, .9))
        a = (H, Ri, Ro, rs.centre(rng), rs.half(rng))
        c = S.annulus(*a, n=40, na=24)
        mk = lambda: sh.Annulus(L, inner, m, *a)
        tol = 1e-8
    elif kind == 'oSphere':
        inner = False
        R = size*float(rng.uniform(.2, .8))
        x = gen.unit(rng)*size*2
        a, c = (R, x), S.move(S.ball(R, 14), None, x)
        mk = lambda: sh.Sphere(L, inner, m, R, x.copy() if rng.random() < .5 else tuple(x))
    else:
        inner = False
        H, OR = size*float(rng.uniform(.5, 1.2)), size*float(rng.uniform(1, 1.6))
        a = (H, OR*float(rng.uniform(.4, .7)), OR, max(.1, rs.half(rng)))
        c = S.frustum(0, H, a[2], a[1], a[1], a[1], 0, a[3], 30, 40)
        mk = lambda: sh.OuterCone(L, inner, m, *a)
        tol = 1e-5
    ok, obj = ctx.call(mk, _kind='build:'+kind, _limit=200)
    if not ok:
        return None
    M = Model()
    M.obj, M.L, M.inner, M.m, M.tol, M.exact = obj, L, inner, m, tol, True
    x, w = c
    w = w*m/w.sum()
    M.x, M.w = x, w
    M.com = w @ x/m
    if inner:
        M.tab = harm.inner(L, x, w)
        M.sc = harm.absbound_inner(L, x, w)*np.sqrt(2*np.arange(L+1.)+1)
    else:
        # outside, a ball is its centre
        M.tab = harm.outer(L, np.array([a[1]], float), np.array([m])) if kind == 'oSphere' else harm.outer(L, x, w)
        M.sc = harm.absbound_outer(L, x, w)*np.sqrt(2*np.arange(L+1.)+1)
    ctr = x.mean(0)
    # bounding radius: cubature nodes lie strictly inside, so widen
    rad = float(np.sqrt(((x-ctr)**2).sum(1)).max())*1.3+.05*size
    M.parts = [dict(sign=1 if m > 0 else -1, c=c, ctr=ctr, rad=rad, inrad=inrad,
                    incen=(M.com if inrad else None), tol=KERNEL if kind == 'Cylhole' else 1e-6)]
    M.cad_ok = True
    M.log = [('build', kind, m, a)]
    ctx.events['shapes.'+kind.lstrip('o')] += 1
    return M


def vec(rng):
    c = int(rng.integers(4))
    v = rng.normal(size=3)
    if c == 0:
        v = np.zeros(3)
        v[int(rng.integers(3))] = rng.choice([-1., 1.])*rng.uniform(.3, 1)
    return v


def rotate(ctx, rng, M):
    e = tuple(gen.typed(rng, float(t)) for t in rng.uniform(-7, 7, 3))
    if rng.random() < .4:
        e = tuple(float(t) for t in rng.choice([0., np.pi/2, -np.pi/2, np.pi, 2*np.pi], 3))
    M.log.append(('rotate', e))
    ok, _ = ctx.call(M.obj.rotate, *e, _kind='rotate')
    ctx.events['step rotate'] += 1
    table_move(M, R_e=e)
    R = harm.euler_zyz(*e)
    put(M, M.x @ R.T, lambda p: p @ R.T, (R, None))
    return ok


def put(M, x, f, mv):
    M.x = x
    M.com = f(M.com)
    for p in M.parts:
        p['c'] = S.move(p['c'], *mv)
        p['ctr'] = f(p['ctr'])
        if p['incen'] is not None:
            p['incen'] = f(p['incen'])


def translate(ctx, rng, M, to_outer=False):
    if M.inner and to_outer:
        reach = float(np.sqrt((M.x**2).sum(1)).max())
        v = gen.unit(rng)*reach*float(rng.uniform(2.2, 5))
        if rng.random() < .3:
            v = np.array([0, 0, np.sqrt(v @ v)*rng.choice([-1, 1])])
        tag = 'inner to outer'
    elif M.inner:
        v = vec(rng)*float(rng.choice([.3, 1, 6]))
        if rng.random() < .08:
            v = np.zeros(3)
        tag = 'translate inner'
    else:
        near = float(np.sqrt((M.x**2).sum(1)).min())
        v = gen.unit(rng)*near*float(rng.uniform(.02, .25))
        tag = 'translate outer'
    if not to_outer and M.inner and rng.random() < .25:
        v = np.round(v) if np.round(v).any() else np.array([1., 0, -1])      # whole steps
    c = int(rng.integers(4))
    if c == 3 and (v == np.round(v)).all():
        c = int(rng.integers(2))
        arg = [list, tuple][c](map(int, v))
    else:
        c = min(c, 2)
        arg = list(map(float, v)) if c == 0 else tuple(map(float, v)) if c == 1 else v.copy()
    to_inner = M.inner and not to_outer
    M.log.append((tag, arg))
    ok, _ = ctx.call(M.obj.translate, arg, to_inner, _kind='translate')
    if c == 2:
        ctx.expect(np.array_equal(arg, v), 'argument changed', '', {'history': M.log})
    ctx.events['step '+tag] += 1
    table_move(M, v=v, to_outer=not to_inner)
    put(M, M.x+v, lambda p: p+v, (None, v))
    return ok


def solid(M):
    """something is left to draw (a hole larger than the body leaves nothing)."""
    return M.obj.mesh is not None and (M.cad_ok or M.obj.mesh.solids().size() > 0)


def add(ctx, rng, A, others):
    Ls = [A.L]+[o.L for o in others]
    tot = A.m+sum(o.m for o in others)
    if abs(tot) < .2*(abs(A.m)+sum(abs(o.m) for o in others)) or any(o.inner != A.inner for o in others):
        return False
    if not all(solid(M) for M in [A]+others):
        return False
    arg = [o.obj for o in others]
    if len(arg) == 1 and rng.random() < .6:
        arg = arg[0]
        ctx.events['step add'] += 1
    else:
        ctx.events['step add list'] += 1
    A.log.append(('add', [o.log[:] for o in others]))
    ok, _ = ctx.call(A.obj.add, arg, _kind='add')
    L = max(Ls)
    if len(set(Ls)) > 1:
        A.exact = False

    def emb(M):
        t = np.zeros((L+1, 2*L+1), complex)
        t[:M.L+1, L-M.L:L+M.L+1] = M.tab
        s = np.zeros(L+1)
        s[:M.L+1] = M.sc
        return t, s
    t, s = emb(A)
    for o in others:
        t2, s2 = emb(o)
        t, s = t+t2, s+s2
        A.exact = A.exact and o.exact
        A.tol = max(A.tol, o.tol)
    A.tab, A.sc, A.L = t, s, L
    A.com = (A.m*A.com+sum(o.m*o.com for o in others))/tot
    A.m = tot
    A.x = np.vstack([A.x]+[o.x for o in others])
    A.w = np.concatenate([A.w]+[o.w for o in others])
    # the drawn solid
    for o in others:
        A.cad_ok = A.cad_ok and o.cad_ok and len(o.parts) == 1 and A.parts[0]['sign'] > 0
        new = dict(o.parts[0])
        d = [np.sqrt(((new['ctr']-p['ctr'])**2).sum()) for p in A.parts]
        if new['sign'] > 0:
            A.cad_ok = A.cad_ok and all(x > p['rad']+new['rad'] for x, p in zip(d, A.parts))
        else:
            host = [p for p in A.parts if p['inrad'] and
                    np.sqrt(((new['ctr']-p['incen'])**2).sum())+new['rad'] < p['inrad']]
            A.cad_ok = A.cad_ok and bool(host) and all(
                x > p['rad']+new['rad'] for x, p in zip(d, A.parts) if p['sign'] < 0)
        A.parts = A.parts+[new]
    return ok


def refused(ctx, rng, live):
    M = live[int(rng.integers(len(live)))]
    c = int(rng.integers(4))
    ctx.events['step refused'] += 1
    if c == 0 and not M.inner:
        v = [[.1, .2, .3], [0., 0., 0.], [0., 0., 1.]][int(rng.integers(3))]
        ctx.call(M.obj.translate, v, True, _raises=ValueError, _kind='outer to inner')
        M.log.append('refused outer to inner')
        ctx.events['step refused outer to inner'] += 1
    elif c <= 2:
        # a partner of the other kind, alone or behind parts that would fit
        ok, b = ctx.call(sh.Sphere, M.L, not M.inner, 1.5, .1, [3., 0., 1.], _kind='build:Sphere')
        if not ok:
            return
        fit = [o.obj for o in live if o is not M and o.inner == M.inner and o.L == M.L]
        k = int(rng.integers(4))
        what = b if k == 0 else [b] if k == 1 else fit+[b] if k == 2 else [b]+fit
        ctx.call(M.obj.add, what, _raises=TypeError, _kind='inner with outer')
        M.log.append('refused mixed add')
        ctx.events['step refused mixed add'] += 1
    else:
        ctx.call(M.obj.add, [3., 'part', None][int(rng.integers(3))],
                 _raises=TypeError, _kind='not a shape')
        M.log.append('refused non-shape')
        ctx.events['step refused non-shape'] += 1


def judge(ctx, rng, M, save):
    o = M.obj
    inp = {'L': M.L, 'inner': M.inner, 'history': [str(x)[:150] for x in M.log]}
    q = np.asarray(o.qlm)
    tol = M.tol
    ctx.close(q, M.tab, M.sc[:, None], tol, 'moments', inp)
    if M.exact and M.inner:
        ctx.close(q, harm.inner(M.L, M.x, M.w), M.sc[:, None], tol, 'moments of the mass', inp)
    ctx.expect(o.inner == M.inner and o.lmax == M.L and q.shape == (M.L+1, 2*M.L+1), 'kind and degree',
               f'{o.inner} {o.lmax} {q.shape}', inp)
    mm = np.abs(M.w).sum()
    ctx.close(o.mass, M.m, mm, 1e-12, 'mass', inp)
    r = float(np.sqrt((M.x**2).sum(1)).max())
    ctx.close(o.com, M.com, (mm/abs(M.m))*r, 1e-9, 'centre of mass', inp)
    if M.cad_ok:
        sg0 = M.parts[0]['sign']
        parts = [(p['sign'] if k else 1, p['c']) for k, p in enumerate(M.parts)]
        cad.judge(ctx, o.mesh, parts, 'solid', inp, max(p['tol'] for p in M.parts))
        ctx.expect(bool(o.mesh.pmass) == (sg0 > 0), 'solid:sign', '', inp)
        ctx.events['solids judged'] += 1
    if save and solid(M):
        f = os.environ['VRT_SCRATCH']+'/s%d' % ctx.shard
        ok, _ = ctx.call(o.save_shape, f, _kind='save')
        ctx.events['step save'] += 1
        if ok and ctx.expect(os.path.exists(f+'.txt') and os.path.exists(f+'.stl'), 'save:files', '', inp):
            t = open(f+'.txt').read()
            head = '\n'.join(x for x in t.split('\n') if x.startswith('#'))
            rows = [[complex(y.strip('()').replace('+-', '-')) for y in x.split()]
                    for x in t.split('\n') if x.strip() and not x.startswith('#')]
            ctx.close(np.array(rows), q, np.abs(q), 1e-15, 'save:table', inp)
            ctx.expect(('Inner' in head) == M.inner and ('Outer' in head) == (not M.inner), 'save:kind', head, inp)
            g = re.search(r'Mass: ([-+0-9.eE]+)', head)
            if ctx.expect(g, 'save:mass', head, inp):
                ctx.close(float(g.group(1)), M.m, mm, 1e-12, 'save:mass', inp)
            g = re.search(r'Center of Mass: \[([^\]]*)\]', head)
            if ctx.expect(g, 'save:com', head, inp):
                ctx.close(np.array([float(y) for y in g.group(1).split()]), M.com, (mm/abs(M.m))*r, 1e-7, 'save:com', inp)
            os.remove(f+'.txt')
            os.remove(f+'.stl')


def history(ctx, rng, L, kinds, n):
    live = []

    def make(kind, **k):
        M = build(ctx, rng, kind, L if rng.random() < .7 else int(rng.integers(0, 6 if kind not in SLOW+['oOuterCone'] else 3)), **k)
        if M is not None:
            live.append(M)
        return M
    first = make(str(rng.choice(kinds)), sign=1 if rng.random() < .8 else -1)
    if first is None:
        return live
    for _ in range(n):
        c = rng.random()
        M = live[int(rng.integers(len(live)))]
        good = True
        if c < .25 and len(live) < 4:
            good = make(str(rng.choice(kinds)), sign=1 if rng.random() < .8 else -1) is not None
        elif c < .45:
            good = rotate(ctx, rng, M)
        elif c < .65:
            good = translate(ctx, rng, M)
        elif c < .71 and M.inner:
            good = translate(ctx, rng, M, True)
        elif c < .92 and len(live) > 1:
            others = [o for o in live if o is not M and o.inner == M.inner]
            if others:
                k = 1 if rng.random() < .6 else len(others)
                add(ctx, rng, M, others[:k])
        elif c < .95:
            refused(ctx, rng, live)
        if not good:
            return []
    return live


def bored(ctx, rng, L):
    """a block with a hole or two, as one builds real parts."""
    M = build(ctx, rng, 'RectPrism', L)
    if M is None:
        return []
    live = [M]
    for k in range(int(rng.integers(1, 3))):
        h = build(ctx, rng, str(rng.choice(['Annulus', 'Cone', 'RectPrism', 'NGon', 'Sphere'])), L,
                  size=M.parts[0]['inrad']*.08, sign=-1)
        if h is None:
            return []
        if rng.random() < .5:
            rotate(ctx, rng, h)
        v = (M.com-h.parts[0]['ctr'])+gen.unit(rng)*M.parts[0]['inrad']*.2*k
        h.log.append(('translate', v))
        ok, _ = ctx.call(h.obj.translate, v, True)
        if not ok:
            return []
        table_move(h, v=v)
        put(h, h.x+v, lambda p: p+v, (None, v))
        live.append(h)
    # keep the total well away from zero
    if abs(sum(x.m for x in live)) > .3:
        add(ctx, rng, M, live[1:])
    if rng.random() < .7:
        rotate(ctx, rng, M)
    if rng.random() < .7:
        translate(ctx, rng, M)
    return live


def run(ctx):
    for i, rng in ctx.rounds(110, 2200):
        L = int(rng.integers(0, 6))
        kinds = EASY+(OUT[:2] if i % 3 == 0 else [])
        live = history(ctx, rng, L, kinds, int(rng.integers(1, 10)))
        if live and i % 2:
            refused(ctx, rng, live)
        for k, M in enumerate(live):
            judge(ctx, rng, M, (i+k) % 8 == 0)
            ctx.case(str(M.log), len(M.log) > 1, {'L': M.L, 'history': [str(x)[:80] for x in M.log]})
    # each shape on its own, turned and moved
    for i, rng in ctx.rounds(8*len(EASY), 40*len(EASY), 'each'):
        M = build(ctx, rng, EASY[i // 8 % len(EASY)], int(rng.integers(0, 6)), sign=1 if i % 3 else -1)
        if M is not None and rotate(ctx, rng, M) and translate(ctx, rng, M, rng.random() < .25):
            judge(ctx, rng, M, False)
            ctx.case(str(M.log), True)
    for i, rng in ctx.rounds(40, 400, 'bored'):
        for M in bored(ctx, rng, int(rng.integers(0, 6))):
            judge(ctx, rng, M, False)
            ctx.case(str(M.log), True)
    for i, rng in ctx.rounds(32, 320, 'outer'):
        kinds = OUT if i % 4 == 0 else OUT[:2]
        live = history(ctx, rng, int(rng.integers(0, 3)) if 'oOuterCone' in kinds else int(rng.integers(0, 6)),
                       kinds, int(rng.integers(1, 7)))
        for _ in range(2):
            if live:
                refused(ctx, rng, live)
        for M in live:
            judge(ctx, rng, M, i % 4 == 1)
            ctx.case(str(M.log), len(M.log) > 1)
    for i, rng in ctx.rounds(8, 48, 'slow'):
        M = build(ctx, rng, (SLOW+['oOuterCone'])[i % 3], int(rng.integers(0, 3)))
        if M is not None and rotate(ctx, rng, M) and translate(ctx, rng, M):
            judge(ctx, rng, M, False)
            ctx.case(str(M.log), True)
