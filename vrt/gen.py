"""Workload generators: random and hostile inputs."""
import numpy as np


def scale(rng, lo=-3, hi=3):
    return 10**rng.uniform(lo, hi)


def typed(rng, x, p=.3):
    """x as somebody may have typed it: sometimes rounded to a few digits."""
    x = float(x)
    if rng.random() >= p:
        return x
    if rng.random() < .5:
        y = float(f'{x:.{int(rng.integers(0, 4))}e}')
    else:
        y = round(float(x), int(rng.integers(0, 6)))
    return y if abs(y-x) <= .02*abs(x) else x


def unit(rng):
    v = rng.normal(size=3)
    return v/np.sqrt(v @ v)


SPECIAL = [np.array(v, float) for v in
           ((1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1), (1, 1, 0), (-1, 1, 0),
            (0, 1, -1), (1, 0, 1), (-1, -1, -1), (1, -1, 1), (-1, 0, 1e-9), (1e-8, -1e-8, 1),
            (1e-8, 0, -1))]


def direction(rng, i=None):
    """unit vector; often an axis, a diagonal, or nearly one."""
    if rng.random() < .5:
        v = SPECIAL[int(rng.integers(len(SPECIAL)))]
        return v/np.sqrt(v @ v)
    return unit(rng)


def points(rng, n, R=1., signed=True, center=(0, 0, 0)):
    """n points in the ball R about center, masses of mixed sign and size."""
    x = rng.normal(size=(n, 3))
    x *= (R*rng.random(n)**(1/3)/np.sqrt((x*x).sum(1)))[:, None]
    m = 10**rng.uniform(-2, 1, n)
    if signed:
        m *= np.where(rng.random(n) < .3, -1, 1)
    if rng.random() < .25:       # any unit of mass
        m *= 10**rng.uniform(-14, 6)
    if rng.random() < .15:
        x = np.vectorize(lambda t: typed(rng, t, 1.), otypes=[float])(x)
        m = np.vectorize(lambda t: typed(rng, t, 1.), otypes=[float])(m)
    if n > 3 and rng.random() < .2:
        m[int(rng.integers(n))] = 0.
    if n > 3 and rng.random() < .2:
        x[int(rng.integers(n))] = x[int(rng.integers(n))]
    return np.column_stack([m, x+np.asarray(center)])


def heavier(p):
    """no body whose total mass vanishes by accident."""
    p[0, 0] += 1e-2*np.abs(p[:, 0]).max()+(0. if p[:, 0].any() else 1.)


def special_points(rng, n, R=1.):
    """points on axes, in coordinate planes, repeated, with negative zeros."""
    x = np.array([SPECIAL[int(k)] for k in rng.integers(len(SPECIAL), size=n)])*R
    x = x*rng.choice([.25, .5, 1., -1.], size=(n, 1))
    m = rng.choice([1., 2., -1., .5], size=n)
    return np.column_stack([m, x])


def layout(rng, a):
    """same numbers, another memory layout."""
    k = int(rng.integers(5))
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        return np.repeat(a, 2, axis=0)[::2]
    if k == 2 and a.ndim == 2:
        return np.column_stack([a, np.full(len(a), 7.)])[:, :4]
    if k == 3:
        a = a.copy()
        a.setflags(write=False)
        return a
    return a


def length(rng):
    """a long array; often just about a round number of points, where blocks end."""
    n = int(rng.integers(1000, 6000))
    if rng.random() < .7:
        b = int(rng.choice([100, 128, 250, 256, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000]))
        n = max(1, n//b)*b+int(rng.integers(-1, 2))
    return n


def pair(rng, i):
    """two point arrays, plus a tag for the class of input."""
    c = i % 10
    s = scale(rng)
    na, nb = int(rng.integers(1, 25)), int(rng.integers(1, 40))
    if c == 0:      # generic
        d = s*10**rng.uniform(.4, 2)
        return (layout(rng, points(rng, na, s)), layout(rng, points(rng, nb, s, center=d*unit(rng))), 'generic')
    if c == 1:      # interpenetrating clouds
        return layout(rng, points(rng, na, s)), layout(rng, points(rng, nb, s)), 'mixed'
    if c == 2:      # far away
        d = s*10**rng.uniform(4, 6)
        return points(rng, na, s), points(rng, nb, s, center=d*direction(rng)), 'far'
    if c == 3:      # close pairs
        a = points(rng, na, s)
        b = points(rng, nb, s)
        b[0, 1:] = a[0, 1:]+unit(rng)*s*10**rng.uniform(-4, -1)
        return a, b, 'close'
    if c == 4:      # special positions
        a = special_points(rng, na, s)
        b = special_points(rng, nb, s)
        b[:, 1:] += 3*s*direction(rng)
        return layout(rng, a), layout(rng, b), 'special'
    if c == 5:      # 1-D first or second argument
        a = points(rng, 1, s)[0]
        b = points(rng, nb, s, center=4*s*unit(rng))
        if rng.random() < .5:
            return a, b, '1d'
        return a, b[0], '1d1d'
    if c == 6:      # 1-D second
        return points(rng, na, s), points(rng, 1, s, center=4*s*unit(rng))[0], '2d1d'
    if c == 8 and i % 50 == 8:   # long arrays
        return (points(rng, int(rng.integers(5, 30)), s),
                points(rng, length(rng), s, center=3*s*unit(rng)), 'long')
    if c == 9:      # extreme scales, large common offset
        s = 10**rng.uniform(-9, 9)
        a, b = points(rng, na, s), points(rng, nb, s, center=4*s*unit(rng))
        o = s*10**rng.uniform(0, 3)*unit(rng)
        a[:, 1:] += o
        b[:, 1:] += o
        return a, b, 'extreme'
    # integers
    a = np.column_stack([rng.integers(1, 5, na), rng.integers(-3, 4, (na, 3))])
    b = np.column_stack([rng.integers(-4, 5, nb), rng.integers(-3, 4, (nb, 3))+np.array([8, -7, 9])])
    if rng.random() < .5:
        a = a.astype(float)
    return a, b, 'int'


def euler(rng, i=0):
    """angles as drawn, or as typed in with a few digits."""
    e = _euler(rng)
    if rng.random() < .25:
        d = int(rng.integers(0, 6))
        e = tuple(round(float(v), d) for v in e)
    return e


def _euler(rng):
    """Euler angles including degenerate, tiny, negative and many-turn ones."""
    c = int(rng.integers(7))
    if c == 6:
        b = 10**rng.uniform(-10, -1)*rng.choice([-1, 1])+rng.choice([0., 0., np.pi])
        if rng.random() < .3:
            return (float(rng.uniform(-1e5, 1e5)), float(rng.uniform(-1e4, 1e4)), float(rng.uniform(-1e5, 1e5)))
        if rng.random() < .4:
            return tuple(float(v) for v in 10**rng.uniform(-9, -1, 3))
        return (float(rng.uniform(-4, 4)), float(b), float(rng.uniform(-4, 4)))
    if c == 0:
        return tuple(rng.uniform(-np.pi, np.pi, 3))
    if c == 1:
        return tuple(rng.choice([0, np.pi/2, -np.pi/2, np.pi, -np.pi, 2*np.pi], 3))
    if c == 2:
        return (rng.uniform(-7, 7), float(rng.choice([0., np.pi, -np.pi, 2*np.pi, 1e-9, np.pi-1e-9])),
                rng.uniform(-7, 7))
    if c == 3:
        return tuple(rng.uniform(-20, 20, 3))
    if c == 4:
        k = int(rng.integers(3))
        e = [0., 0., 0.]
        if rng.random() < .8:
            e[k] = float(rng.uniform(-7, 7))
        return tuple(e)
    return (rng.uniform(-4, 4), rng.uniform(np.pi, 2*np.pi), rng.uniform(-4, 4))
