"""Superposition and nesting: parts add up, order and grouping do not matter, a higher degree only appends."""
import importlib
import numpy as np
import newt.glib as glb
import newt.multipoleLib as ml
import newt.pg2Multi as pg
from vrt import core, echo

MODS = ['c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c11', 'c12', 'c13', 'c14', 'c15', 'c17',
        'c18', 'c19', 'c30']
RULE = ('every call that the workloads of C01..C09, C11..C15, C17..C19 and C30 make is made again with a mass, density, '
        'array or table multiplied by a number, split in two, or reordered, and with another degree, each drawn anew; '
        'the answers are combined and compared; every case counts')
LINEAR = [f'{m}.{f}' for m, s in echo.SPEC.items() for f, k in s.items()
          if set(k.split()[0]) & set('MDPpqQt')]
MOVES = ('glib.translate_point_array', 'glib.rotate_point_array')
NEST = [f'{m}.{f}' for m, s in echo.SPEC.items() for f, k in s.items()
        if k.split()[1] in 'qQy' and k[0] == 'n' or 'transl_' in f or f in ('wignerDl', 'dlmn')]
NEST += ['rotations.rotate_qlm']+[f'{m}.{f}' for m in ('translations', 'translationRecurs') for f in
                                  ('translate_qlm', 'translate_Qlmb', 'translate_q2Q')]
NEST += ['multipoleLib.embed_qlm', 'multipoleLib.multipole_force', 'multipoleLib.torque_lm', 'multipoleLib.torque']
REQUIRE = ['pointwise '+t for t in MOVES]+['scaled '+t for t in LINEAR]+['nested '+t for t in NEST]+[
    f'{w} {t}' for w in ('split', 'reordered', 'hidden') for t in
    ('pg2Multi.qmoments', 'pg2Multi.Qmomentsb', 'pg2Multi.imoments', 'glib.gmmr2_array', 'glib.yukawa_array',
     'glib.point_matrix_gravity', 'glib.point_matrix_yukawa')]+['split '+t for t in (
         'rotations.rotate_qlm', 'translations.translate_qlm', 'translations.translate_Qlmb', 'translations.translate_q2Q',
         'translationRecurs.translate_qlm', 'translationRecurs.translate_Qlmb', 'translationRecurs.translate_q2Q',
         'multipoleLib.multipole_force', 'multipoleLib.torque_lm', 'multipoleLib.torque',
         'multipoleLib.torques_at_angle', 'multipoleLib.embed_qlm')]
ASSUME = ['the numerical integrators (qlmNum, bigQlmNum) are judged by C10 and C11 only',
          'answers that overflow or underflow are not compared', 'point clouds have some mass (they are normalised to it)']


def crop(t, K):
    """the table of degree K: cut or filled with zeros."""
    L = len(t)-1
    o = np.zeros((K+1, 2*K+1), t.dtype)
    k = min(K, L)
    o[:k+1, K-k:K+k+1] = t[:k+1, L-k:L+k+1]
    return o


def wild(x):
    y = np.abs(x[np.isfinite(x) & (x != 0)])
    return bool(y.size and (y.max() > 1e200 or y.max() < 1e-200))


class Monitor:
    def __init__(self, h):
        self.h, self.rng, self.free = h, h.rng('parts', h.shard), False

    def ask(self, fn, args):
        return [np.asarray(x) for x in echo.flat(echo.quiet(fn, args))]

    def verdict(self, what, tag, got, want, around, more, inp, columns=False):
        h = self.h
        if any(wild(x) for x in want+got):
            h.events['extreme'] += 1
            return
        h.events[f'{what} {tag}'] += 1
        h.case((what, tag, repr(core.show(inp))), True, inp)
        r = echo.agree(got, want, around, more=more, columns=columns)
        h.margins[f'{what}:{tag}'] = max(h.margins.get(f'{what}:{tag}', 0.), r)
        h.expect(r <= 1, f'{what}:{tag}', f'off by {r:.3g} allowances', inp)

    def judge(self, h, tag, fn, args, kinds, res):
        rng = self.rng
        h.events['calls '+tag] += 1
        if h.events['calls '+tag] > h.pick(90, 1500) and not self.free:
            return
        try:
            v = self.ask(fn, args)
        except (Exception, echo.Late):
            h.events['refused'] += 1
            return
        around = echo.near(rng, fn, args, kinds)
        todo = []
        for j, k in enumerate(kinds):
            if k in 'MDPpqQt':
                todo.append((self.scaled, j))
                if k in 'qQt' or k == 'P' and res[0] in 'qQyf':
                    todo.append((self.split, j))
            if k == 'P' and np.ndim(args[j]) == 2 and tag in MOVES:
                todo.append((self.pointwise, j))
            if k == 'P' and np.ndim(args[j]) == 2 and res[0] in 'qQyf':
                todo.append((self.reordered, j))
                todo.append((self.hidden, j))
        # every monitor in turn, not all on every call
        at = h.events['calls '+tag]
        if todo:
            for n in {at % len(todo), int(rng.integers(len(todo)))}:
                f, j = todo[n]
                f(tag, fn, args, kinds, res, j, v, around)
        if tag in NEST and kinds[0] in 'nqQ':
            self.nested(tag, fn, args, kinds, res, v, around)

    def scaled(self, tag, fn, args, kinds, res, j, v, around):
        rng = self.rng
        c = float(rng.choice([-1., 0., 1e-12, 1e12, 3., -rng.uniform(.1, 10)]))
        if c == 0 and tag.startswith(('glibShapes', 'gShapeGL')):
            # a cloud is normalised to its mass; without any it has none to give
            c = -1.
        if res[0] in 'qQ' and kinds[j] in 'qQ' and rng.random() < .3 and not tag.startswith('translations'):
            c = complex(rng.normal(), rng.normal())
        b = list(args)
        b[j] = args[j]*np.array([c, 1, 1, 1]) if kinds[j] in 'Pp' else args[j]*c
        if kinds[j] == 't':
            b[:2] = args[0]*c, args[1]*c
        inp = {'args': args, 'argument': j, 'times': c}
        try:
            w = self.ask(fn, b)
        except (Exception, echo.Late) as e:
            self.h.fail('scaled:'+tag, f'{e!r} when argument {j} is multiplied by {c}', inp)
            return
        p = res[0] in 'P'
        want = [x*np.array([c, 1, 1, 1]) for x in v] if p else [x*c for x in v]
        near = [[x*np.array([c, 1, 1, 1]) for x in y] if p else [x*c for x in y] for y in around]
        self.verdict('scaled', tag, w, want, near, (), inp, p)

    def split(self, tag, fn, args, kinds, res, j, v, around):
        rng = self.rng
        k, x = kinds[j], args[j]
        a, b = list(args), list(args)
        if k == 'P':
            if np.ndim(x) != 2 or len(x) < 2:
                return
            pick = rng.random(len(x)) < rng.choice([.1, .5, .9])
            pick[0], pick[-1] = True, False
            a[j], b[j] = x[pick], x[~pick]
        elif k in 'qQ':
            # anything of the size of the table; tables of bodies obey conjugation
            u = np.abs(x)*np.exp(1j*rng.uniform(0, 2*np.pi, x.shape))*rng.uniform(.3, 2, x.shape)
            L = len(x)-1
            s = np.where(np.arange(-L, L+1) % 2, -1., 1.)
            if np.allclose(x, np.conj(x[:, ::-1])*s, rtol=1e-12, atol=0):
                u = (u+np.conj(u[:, ::-1])*s)/2
            a[j], b[j] = u, x-u
        else:
            if j:
                return
            u, w = (rng.normal(size=np.shape(y))*np.abs(y)+1j*rng.normal(size=np.shape(y))*np.abs(y) for y in args[:2])
            a[:2], b[:2] = (u, w), (args[0]-u, args[1]-w)
        inp = {'args': args, 'argument': j, 'part': a[j]}
        try:
            y, z = self.ask(fn, a), self.ask(fn, b)
        except (Exception, echo.Late) as e:
            self.h.fail('split:'+tag, f'{e!r} for a part of argument {j}', inp)
            return
        if [t.shape for t in y] != [t.shape for t in z]:
            self.h.fail('split:'+tag, 'parts give other shapes', inp)
            return
        self.verdict('split', tag, [s+t for s, t in zip(y, z)], v, around, (y, z), inp)

    def reordered(self, tag, fn, args, kinds, res, j, v, around):
        b = list(args)
        o = self.rng.permutation(len(args[j]))
        b[j] = args[j][o]
        inp = {'args': args, 'argument': j, 'order': o}
        try:
            w = self.ask(fn, b)
        except (Exception, echo.Late) as e:
            self.h.fail('reordered:'+tag, repr(e), inp)
            return
        # large terms of either sign may cancel: judged against the sum of their sizes
        c = list(args)
        c[j] = args[j].copy()
        c[j][:, 0] = np.abs(c[j][:, 0])
        half = []
        for s in range(3):
            d = list(c)
            d[j] = c[j]*np.array([1, 1, 1, 1])
            d[j][:, 0] *= self.rng.uniform(.5, 1, len(o))
            try:
                half.append(self.ask(fn, d))
            except (Exception, echo.Late):
                pass
        self.verdict('reordered', tag, w, v, around, half, inp)

    def hidden(self, tag, fn, args, kinds, res, j, v, around):
        """points whose mass is taken away again by others at the same places hide nothing behind them."""
        rng = self.rng
        x = args[j]
        if len(x) < 2:
            return
        pick = rng.random(len(x)) < .5
        if rng.random() < .6:
            r = (x[:, 1:]**2).sum(1)
            pick = (r > np.sort(r)[int(rng.integers(len(r)-1))]) ^ (rng.random() < .5)
        if pick.all() or not pick.any():
            return
        A, B = x[pick], x[~pick]
        c = float(10**rng.uniform(-12, 0))
        B = B*np.array([c, 1, 1, 1])
        a, b = list(args), list(args)
        a[j] = np.vstack([A, A*np.array([-1, 1, 1, 1]), B])
        if rng.random() < .5:
            a[j] = a[j][rng.permutation(len(a[j]))]
        b[j] = B
        inp = {'args': args, 'argument': j, 'points': a[j]}
        try:
            w, u = self.ask(fn, a), self.ask(fn, b)
        except (Exception, echo.Late) as e:
            self.h.fail('hidden:'+tag, repr(e), inp)
            return
        # 1e-10 of the rest, and rounding of the part that goes away
        off = echo.near(rng, fn, a, kinds, 5, 4e-15)
        self.verdict('hidden', tag, w, u, [[p+s-t for p, s, t in zip(u, y, w)] for y in off], (), inp)

    def pointwise(self, tag, fn, args, kinds, res, j, v, around):
        pick = self.rng.permutation(len(args[j]))[:int(self.rng.integers(1, len(args[j])+1))]
        b = list(args)
        b[j] = args[j][pick]
        inp = {'args': args, 'points': pick}
        try:
            w = self.ask(fn, b)
        except (Exception, echo.Late) as e:
            self.h.fail('pointwise:'+tag, repr(e), inp)
            return
        self.verdict('pointwise', tag, w, [x[pick] for x in v], [[x[pick] for x in y] for y in around], (), inp, True)

    def nested(self, tag, fn, args, kinds, res, v, around):
        rng = self.rng
        b = list(args)
        name = tag.split('.')[1]
        tables = [j for j, k in enumerate(kinds) if k in 'qQ']
        L = len(args[tables[0]])-1 if tables else int(args[0])
        if kinds[0] == 'n' and int(args[0]) != L:
            return
        if any(len(args[j])-1 != L for j in tables):
            return
        K = int(rng.integers(0, L+3))
        if not tables:
            K = min(K, max(L, 0))
        down = tables and res[0] == 'q' or not tables
        if not down:
            # these mix downwards: the degrees above are filled with zeros
            K = L+int(rng.integers(1, 4))
            if L > 12:
                return
        if name == 'embed_qlm':
            # what was there is still there
            M = min(L, int(args[1]))
            if M >= 0:
                self.verdict('nested', tag, [crop(v[0], M)], [crop(args[0], M)], around[:0], (), {'args': args})
            return
        if kinds[0] == 'n':
            b[0] = K
        for j in tables:
            b[j] = crop(args[j], K)
        inp = {'args': args, 'degree': K}
        try:
            w = self.ask(fn, b)
        except (Exception, echo.Late) as e:
            self.h.fail('nested:'+tag, repr(e), inp)
            return
        k = min(K, L)
        if 'transl_' in name:
            v, w = matrices(v, w, k, L, K, 'yuk' in name)
            around = [matrices(x, x, k, L, L, 'yuk' in name)[0] for x in around]
        elif tag.split('.')[0] == 'rotations' and not tables:
            v, w = v[:k+1], w[:k+1]
            around = [x[:k+1] for x in around]
        elif name in ('torque', 'torque_lm'):
            # the products per degree and order
            v, w = [crop(v[0], k)], [crop(w[0], k)]
            around = [[crop(x[0], k)] for x in around]
        elif name == 'multipole_force':
            pass
        else:
            v, w = [crop(v[0], k)], [crop(w[0], k)]
            around = [[crop(x[0], k)] for x in around]
        self.verdict('nested', tag, w, v, around, (), inp)


def matrices(v, w, k, L, K, yuk):
    """the blocks of coaxial matrices that both degrees have."""
    if yuk:
        v, w = v[1:], w[1:]
    return [x[:k+1-m, :k+1-m] for m, x in enumerate(v[:k+1])], [x[:k+1-m, :k+1-m] for m, x in enumerate(w[:k+1])]


def run(ctx):
    mon = Monitor(ctx)
    for i, rng in ctx.rounds(80, 1500, 'embed'):
        L, K = (int(k) for k in rng.integers(0, 25, 2))
        q = rng.normal(size=(L+1, 2*L+1))+1j*rng.normal(size=(L+1, 2*L+1))
        q[np.abs(np.arange(-L, L+1)) > np.arange(L+1)[:, None]] = 0
        ok, v = ctx.call(ml.embed_qlm, q, K)
        if ok:
            ctx.expect(np.array_equal(v, crop(q, K)), 'embedded', f'degree {L} to {K}', {'q': q, 'K': K})
    mon.free = True
    sub = echo.Echo(ctx, 'C33', mon.judge)
    for i, rng in ctx.rounds(120, 3000, 'spread'):
        # masses and distances of every size in one array
        p, o = (np.column_stack([10**rng.uniform(-6, 6, n)*rng.choice([1, 1, -1], n),
                                 (x := rng.normal(size=(n, 3)))/np.sqrt((x*x).sum(1))[:, None]*10**rng.uniform(-3, 3, n)[:, None]])
                for n in (int(k) for k in rng.integers(2, 16, 2)))
        L = int(rng.integers(0, 15))
        sub.call(pg.qmoments, L, p)
        sub.call(pg.Qmomentsb, L, p)
        sub.call(pg.imoments, L, float(10**rng.uniform(1, 4)), p)
        sub.call(glb.point_matrix_gravity, p, o)
        sub.call(glb.point_matrix_yukawa, p, o, 1., float(10**rng.uniform(1, 4)))
        sub.call(glb.gmmr2_array, p[0], o)
        sub.call(glb.translate_point_array, p, rng.normal(size=3)*10**rng.uniform(-3, 3))
        sub.call(glb.rotate_point_array, p, float(rng.uniform(-7, 7)), rng.normal(size=3))
    mon.free = False
    for m in MODS:
        importlib.import_module('checks.'+m).run(echo.Echo(ctx, m.upper(), mon.judge))
