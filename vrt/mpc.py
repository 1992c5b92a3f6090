"""Random MULTIN programs with an independent model of what they describe.

The model keeps two clouds of mass elements (working, total); a program is a list of
text lines; every command acts on the clouds the way the file format says.
"""
import numpy as np
from vrt import gen, harm, solids as S, refsolids as rs


def r6(x):
    return float('%.7g' % x)


def num(rng, x):
    """a number as such files write it."""
    c = int(rng.integers(4))
    t = repr(float(x))
    if c == 0 and float(x) == int(x):
        return str(int(x))
    if c == 1:
        return ' '+t
    if c == 2:
        return t+' '
    return t


def dims(rng, k=1, big=False):
    """k distinct sizes in file units."""
    e = 2. if rng.random() < .15 else .45
    v = [r6(10**rng.uniform(-e, e)) for _ in range(k)]
    return v


def draw(rng, L, names):
    """(type, numbers in file units, function of the unit -> cubature)."""
    name = str(rng.choice(names))
    n = max(4, L//2+3)
    na = 2*n+14
    if name == 'cylinder':
        Ro, H = dims(rng, 2)
        Ri = 0. if rng.random() < .4 else r6(Ro*(rng.uniform(.1, .9) if rng.random() < .8 else rng.choice([1e-3, .99])))
        c = int(rng.integers(4))
        p0, p1 = [(0., 360.), (0., r6(rng.uniform(5, 350))), (-180., 180.),
                  (r6(rng.uniform(-200, 20)), 0.)][c]
        if c == 3:
            p1 = r6(p0+rng.uniform(5, 359))
        return name, [Ri, Ro, H, p0, p1], lambda f: S.annulus(
            H*f, Ri*f, Ro*f, np.radians(p0+p1)/2, np.radians(p1-p0)/2, n=n, na=na+2*L)
    if name == 'sphere':
        R, = dims(rng)
        return name, [R], lambda f: S.ball(R*f, n)
    if name == 'cone':
        a, b, H = dims(rng, 3)
        c = int(rng.integers(5))
        if c == 0:
            a = 0.
        elif c == 1:
            b = 0.
        elif c == 2:
            b = a
        elif abs(a/b-1) < .2:
            b = r6(a*1.5)
        return name, [a, b, H], lambda f: S.frustum(0, H*f, a*f, b*f, n=n)
    if name == 'triangle':
        d, t = dims(rng, 2)
        y1, y2 = (r6(v) for v in rs.ys(rng, 1.))
        if rng.random() < .2:
            d = -d
        return name, [d, y1, y2, t], lambda f: rs.tri(d*f, y1*f, y2*f, t*f, n)
    if name == 'trapezoid':
        a, b, h, t = dims(rng, 4)
        c = int(rng.integers(6))
        if c == 0:
            a = 0.
        elif c == 1:
            b = 0.
        elif c == 2:
            b = a
        elif abs(a/b-1) < .2:
            b = r6(a*1.5)
        return name, [a, b, h, t], lambda f: rs.trap(t*f, a*f, b*f, h*f, n)
    if name == 'partcylinder':
        R, h = dims(rng, 2)
        d = r6(R*rng.uniform(.1, .8)) if rng.random() < .7 else r6(R*float(rng.choice([0., .01, .9])))
        return name, [R, d, h], lambda f: S.segment(R*f, d*f, h*f, n+4)
    if name == 'tetrahedron':
        x, y, z = dims(rng, 3)
        return name, [x, y, z], lambda f: S.tet((0, 0, 0), (x*f, 0, 0), (0, y*f, 0), (0, 0, z*f), n)
    if name == 'pyramid':
        x, y, z = dims(rng, 3)
        return name, [x, y, z], lambda f: rs.pyr(x*f/2, y*f/2, z*f, n)
    if name == 'rectangle':
        x, y, z = dims(rng, 3)
        return name, [x, y, z], lambda f: S.box(x*f, y*f, z*f, n)
    if name == 'platehole':
        r, t = dims(rng, 2)
        th = r6(rng.choice([0., rng.uniform(-60, 60)]))
        return name, [r, t, th], lambda f: rs.flatplate(t*f, r*f, np.radians(th), n)
    r = dims(rng)[0]
    R = r6(r*rng.uniform(1.1, 3))
    return 'cylhole', [r, R], lambda f: S.move(S.cylhole(r*f, R*f, n+2, 80), harm.rotmat([0, 0, 1], np.pi/2))


def virtual(name, v):
    """size of the larger body such a solid may be cut from (sets the rounding)."""
    if name == 'cone' and v[0] != v[1]:
        return v[2]*max(v[0], v[1])/abs(v[0]-v[1])+max(v[:2])
    if name == 'trapezoid' and v[0] != v[1]:
        return v[2]*max(v[0], v[1])/abs(v[0]-v[1])+max(v[:2])
    return 0.


class Program:
    def __init__(self, rng, L, names):
        self.rng, self.L, self.names = rng, L, names
        z = np.zeros((0, 3)), np.zeros(0), np.zeros(0)
        self.work, self.total = z, z        # positions, masses, largest |moment arm| so far
        self.f = 1e-2
        self.title = str(rng.choice(['bracket', ' test part  ', 'create sphere red', '%comment title', 'end']))
        self.lines = []
        self.log = []
        self.gsq = {}

    def put(self, s, comment=True):
        rng = self.rng
        if comment and rng.random() < .2:
            s += ' % '+str(rng.choice(['add', 'create sphere red', 'end', 'rotate 1,2,3', 'hole 2', 'zeroqlm']))
        self.lines.append(s)

    def noise(self):
        k = int(self.rng.integers(8))
        if k == 0:
            self.lines.append('')
        elif k == 1:
            self.lines.append('% '+str(self.rng.choice(['add', 'end', 'next part', 'create box red'])))
        elif k == 2:
            self.lines.append('nsteps 24')

    def create(self, centred=False):
        rng = self.rng
        name, v, cub = draw(rng, self.L, self.names)
        dens = r6(rng.uniform(.5, 20)*(1 if rng.random() < .8 else -1))
        if centred or rng.random() < .5:
            pos = [0., 0., 0.]
        else:
            pos = [r6(x) for x in rng.uniform(-5, 5, 3)]
            if rng.random() < .5:
                pos[int(rng.integers(3))] = 0.
                pos[int(rng.integers(3))] = 0.
        self.put('create '+name+' '+str(rng.choice(['red', 'blue'])))
        self.lines.append(','.join(num(rng, x) for x in v))
        self.lines.append(num(rng, dens)+str(rng.choice(['', ',steel'])))
        self.lines.append(','.join(num(rng, x) for x in pos))
        c = cub(self.f)
        arm = np.full(len(c[1]), virtual(name, v)*self.f)
        self.work = c[0], c[1]*dens*1000, arm
        self.moved(c[0])
        self.moved(c[0]+np.array(pos)*self.f)
        self.log.append(('create', name, v, dens, pos))

    def moved(self, x):
        r = np.sqrt((x*x).sum(1))
        self.work = x, self.work[1], np.maximum(self.work[2], r)

    def unknown(self):
        rng = self.rng
        self.put('create '+str(rng.choice(['torus', 'wedge', 'helix']))+' red', False)
        self.lines += ['1,2,3', '1.0', '0,0,0']
        if rng.random() < .5:
            self.lines += ['add'] if rng.random() < .5 else ['rotate 10,20,30', 'add']
        c = int(rng.integers(4))
        if c == 0:          # words in comments do not end what it swallows
            self.lines += ['%% %s' % rng.choice(['end of the torus', 'then create', 'add']), 'translate 1,2,3',
                           'add %% %s' % rng.choice(['the end', 'create next'])]
        elif c == 1:        # nor do those in the name of a part
            self.lines += ['load '+str(rng.choice(['pendulum', 'create1'])), 'add']
        self.log.append(('unknown',))

    def step(self):
        rng = self.rng
        c = rng.choice(['create', 'rotate', 'translate', 'add', 'zeroqlm', 'gettotal', 'puttotal', 'unit', 'unknown',
                        'load'], p=[.25, .15, .16, .21, .03, .05, .05, .04, .03, .03])
        if rng.random() < .2:
            self.noise()
        if c == 'create':
            self.create()
            if rng.random() < .3:
                self.put('add')
                self.add()
        elif c == 'rotate':
            e = [r6(x) for x in rng.uniform(-400, 400, 3)]
            if rng.random() < .4:
                e = [float(x) for x in rng.choice([0, 30, 45, 90, -90, 180, 270, 360], 3)]
            self.put('rotate '+','.join(num(rng, x) for x in e))
            R = harm.euler_zyz(*np.radians(e))
            self.moved(self.work[0] @ R.T)
            self.log.append(('rotate', e))
        elif c == 'translate':
            d = [r6(x) for x in rng.uniform(-5, 5, 3)]
            if rng.random() < .4:
                d = [0., 0., 0.]
                if rng.random() < .8:
                    d[int(rng.integers(3))] = r6(rng.uniform(-5, 5))
            self.put('translate '+','.join(num(rng, x) for x in d))
            self.moved(self.work[0]+np.array(d)*self.f)
            self.log.append(('translate', d))
        elif c == 'add':
            if len(self.total[1]) < 60000:
                self.put('add')
                self.add()
        elif c == 'zeroqlm':
            self.put('zeroqlm')
            self.total = np.zeros((0, 3)), np.zeros(0), np.zeros(0)
            self.log.append(('zeroqlm',))
        elif c == 'gettotal':
            if len(self.total[1]) < 60000:
                self.put('gettotal')
                self.work = self.total
                self.log.append(('gettotal',))
        elif c == 'puttotal':
            self.put('puttotal')
            self.total = self.work
            self.log.append(('puttotal',))
        elif c == 'unit':
            u = str(rng.choice(['cmin', 'inchin']))
            self.put(u)
            self.f = 1e-2 if u == 'cmin' else 25.4e-3
            self.log.append((u,))
        elif c == 'unknown':
            self.unknown()
            self.create()       # a bad shape swallows everything up to the next one
        else:
            if rng.random() < .4:
                self.create(True)
            self.load()
            if rng.random() < .5:
                self.put('add')
                self.add()

    def add(self):
        self.total = tuple(np.concatenate([a, b]) for a, b in zip(self.total, self.work))
        self.log.append(('add',))

    def load(self):
        rng = self.rng
        p = gen.points(rng, 4, .03)
        name = str(rng.choice(['part', 'paddle', 'rotated', 'pendulum', 'create1', 'ladder', 'translated', 'cmin',
                               'inchin', 'zeroqlm', 'nsteps', 'gettotal', 'puttotal', 'bend'])) + \
            '%d' % len(self.gsq)
        q = harm.inner(self.L, p[:, 1:], p[:, 0])
        self.gsq[name+'.gsq'] = gsq_text(q, self.L)
        self.put('load '+name+str(rng.choice(['', '.gsq', '  '])), False)
        self.work = p[:, 1:], p[:, 0], np.zeros(4)
        self.moved(p[:, 1:])
        self.log.append(('load', p))

    def finish(self):
        rng = self.rng
        k = int(rng.integers(4))
        if k == 0:
            if rng.random() < .5:       # a bad shape may be the last thing
                self.unknown()
            return
        self.put('end')
        if k == 1:
            self.lines += ['add', 'create sphere red', '1', '1.0', '0,0,0', 'add']
        if k == 2:
            self.lines += ['']

    def text(self):
        t = '\n'.join([self.title]+self.lines)
        return t+('\n' if self.rng.random() < .7 else '')


def gsq_text(q, L, inner=True):
    out = [' title here', ' %d       0' % L, '  1.0E+01', '  1.0E+01', '  .0  .0  .0', '  2.0', '  3.0', ' T F',
           '  .0000']
    for l in range(L+1):
        for m in range(l+1):
            v = q[l, L+m]/(1e-3*.01**l) if inner else q[l, L+m]
            out.append('  %.17E   %.17E' % (v.real, v.imag))
    return '\n'.join(out)+'\n'


def random_program(rng, L, names, n):
    P = Program(rng, L, names)
    if rng.random() < .7:
        P.put(str(rng.choice(['cmin', 'nsteps 24'])))
    for _ in range(n):
        P.step()
    if rng.random() < .8:
        P.put('add')
        P.add()
    P.finish()
    return P
