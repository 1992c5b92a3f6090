"""Torque as a function of turntable angle; tables of unequal degree; embedding."""
import numpy as np
import newt.multipoleLib as ml
from vrt import field, gen, harm, shift
from checks.c12 import table
from checks.c18 import bodies

RULE = ('random clouds, scalar and array angles (negative, multi-turn), sensor or source spun, with and '
        'without the other moves; judged from spun masses at the same truncation; tables of every pair of '
        'degrees 0..9 against truncation by hand; arbitrary, sparse and mirror-symmetric tables at any angle; embedding to every degree 0..12; non-trivial when the '
        'degree exceeds 0')
QUICK = 5       # rounds of the quick tier are multiplied by this
REQUIRE = ['multipoleLib.torques_at_angle', 'multipoleLib.torque_lm', 'multipoleLib.torque', 'multipoleLib.embed_qlm']
ASSUME = ['angles given as numbers or numpy arrays']


def spun(p, t):
    return field.move(p, harm.rotmat([0, 0, 1], t))


def cut(q, L):
    """the same moments, at degree L."""
    K = len(q)-1
    out = np.zeros((L+1, 2*L+1), complex)
    M = min(K, L)
    out[:M+1, L-M:L+M+1] = q[:M+1, K-M:K+M+1]
    return out


def ztq(p, Q):
    return field.ztorque(p, field.forces(Q, p)[0])


def run(ctx):
    for i, rng in ctx.rounds(160, 4000):
        L = int(rng.integers(0, 9)) if i % 6 else int(rng.integers(10, 15))
        s = gen.scale(rng)
        a, p, src = bodies(rng, s, 10**rng.uniform(-2, -.1))
        q = harm.inner(L, p[:, 1:], p[:, 0])
        Q = harm.outer(L, src[:, 1:], src[:, 0])
        l = np.arange(L+1.)

        def bound(r, Qn):
            return 4*np.pi*field.G*np.sum(np.abs(p[:, 0])[:, None]*r[:, None]**l*np.sqrt(2*l+1)*l*Qn/(2*l+1))+1e-300
        rp = np.sqrt((p[:, 1:]**2).sum(1))
        Qn = np.sqrt((np.abs(Q)**2).sum(1))
        sc = bound(rp, Qn)
        n = int(rng.integers(1, 7))
        t = rng.uniform(-10, 10, n)
        t[0] = rng.choice([0., np.pi/2, -np.pi, t[0]])
        inp = {'L': L, 'inner': p, 'outer': src, 'angles': t}
        ok, v = ctx.call(ml.torque_lm, q, Q)
        if not ok:
            continue
        nlm, nc, ns = v
        # amplitudes repeat the sum over degrees
        nm = np.asarray(nlm).sum(0)
        ctx.close(nc, nm[L:]+nm[L::-1], sc, 1e-13, 'cosine amplitudes', inp)
        ctx.close(ns, nm[L:]-nm[L::-1], sc, 1e-13, 'sine amplitudes', inp)
        ang = 1e-12+1e-14*np.abs(t).max()*L
        for outer in (False, True):
            ok, g = ctx.call(ml.torques_at_angle, nc, ns, t, outer) if outer or i % 2 else ctx.call(ml.torques_at_angle, nc, ns, t)
            if ok:
                if outer:
                    want = [ztq(p, harm.outer(L, spun(src, x)[:, 1:], src[:, 0])) for x in t]
                else:
                    want = [ztq(spun(p, x), Q) for x in t]
                if L == 0:
                    want, g = 0., np.max(np.abs(g))
                ctx.close(g, np.real(want), sc, ang, 'source spun' if outer else 'sensor spun', inp)
        ok, g = ctx.call(ml.torques_at_angle, nc, ns, float(t[0]))
        if ok:
            ctx.close(g, np.real(ztq(spun(p, t[0]), Q)), sc, ang, 'single angle', inp)
        ctx.case((L, p, src, t), L > 0, {'L': L, 'angles': t})
        if i % 5 == 2 and L:      # a whole scan: the curve is a trigonometric polynomial of degree L
            n = int(rng.choice([64, 100, 101, 360, 361, 720, 999, 1000, 1001, 2048, 5000]))
            big = rng.choice([1e-6, 2*np.pi, 20*np.pi, 1e5])
            ts = np.linspace(-big, big, n) if rng.random() < .5 else rng.uniform(-big, big, n)
            N = 2*L+1
            x = 2*np.pi*np.arange(N)/N
            out = bool(rng.random() < .5)
            c = np.fft.fft([ztq(p, harm.outer(L, spun(src, y)[:, 1:], src[:, 0])) if out else ztq(spun(p, y), Q)
                            for y in x])/N
            k = np.fft.fftfreq(N, 1/N)
            ok, g = ctx.call(ml.torques_at_angle, nc, ns, ts, out)
            if ok and ctx.expect(np.shape(g) == (n,), 'scan:shape', str(np.shape(g)), inp):
                ctx.close(g, np.real(np.exp(1j*np.outer(ts, k)) @ c), sc, 1e-12+1e-14*big*L, 'scan',
                          {'L': L, 'inner': p, 'outer': src, 'angles': ts, 'source spun': out})
        # spun first, then moved
        e = tuple(gen.typed(rng, float(x)) for x in rng.uniform(-4, 4, 3))
        R = harm.euler_zyz(*e)
        mode = i % 3
        if mode == 0:
            d = shift.vector(rng, a*10**rng.uniform(-1, .1)) if i % 2 else (0., 0., 0.)
            va = np.asarray(d, float)
            ok, v = ctx.call(ml.torque, q, Q, e, d)
            want = [ztq(field.move(spun(p, x), R, va), Q) for x in t]
            sc2 = bound(rp+np.sqrt(va @ va), Qn)
            out = False
        elif mode == 1:
            rm = np.sqrt((src[:, 1:]**2).sum(1)).min()
            d = shift.vector(rng, rm*10**rng.uniform(-2, -.7)) if i % 2 else (0., 0., 0.)
            va = np.asarray(d, float)
            ok, v = ctx.call(ml.torque, q, Q, e, d, 'outer-outer')
            want = []
            for x in t:
                sm = field.move(spun(src, x), R)
                Q2 = harm.outer(L, sm[:, 1:], sm[:, 0])
                want.append(ztq(p, shift.outer2outer(Q2, va)[0] if va.any() else Q2))
            rr = np.sqrt(va @ va)
            sc2 = bound(rp, np.array([sum(Qn[h]*rr**(h-j)*np.exp(shift.lf(h+j)-shift.lf(2*j)-shift.lf(h-j))*4
                                          for h in range(j, L+1)) for j in range(L+1)]))
            out = True
        else:
            b = gen.points(rng, 5, s)
            gen.heavier(b)
            qb = harm.inner(L, b[:, 1:], b[:, 0])
            d = shift.vector(rng, s*10**rng.uniform(.4, 1))
            va = np.asarray(d, float)
            rr = np.sqrt(va @ va)
            ok, v = ctx.call(ml.torque, q, qb, e, d, 'inner-outer')
            want = []
            for x in t:
                bm = field.move(spun(b, x), R)
                want.append(ztq(p, shift.inner2outer(harm.inner(L, bm[:, 1:], bm[:, 0]), va)[0]))
            bn = np.sqrt((np.abs(qb)**2).sum(1))
            sc2 = bound(rp, np.array([sum(bn[h]*rr**-(h+j+1.)*np.exp(shift.lf(h+j)-shift.lf(h)-shift.lf(j))*4
                                          for h in range(L+1)) for j in range(L+1)]))
            out = False
        if ok and L > 0:
            ok, g = ctx.call(ml.torques_at_angle, v[1], v[2], t, out)
            if ok:
                tol = (1e-12+(4*shift.pole(d)*2*L if va.any() else 0))*max(1, L)+ang
                ctx.close(g, np.real(want), sc2, tol, 'spun then moved:%d' % mode,
                          {**inp, 'euler': e, 'shift': d, 'mode': ['inner-inner', 'outer-outer', 'inner-outer'][mode]})
    # any tables, those of mirror-symmetric bodies (exact zeros among the amplitudes) too
    for i, rng in ctx.rounds(120, 3000, 'tables'):
        L = int(rng.integers(1, 12))
        qa, qb = shift.symmetric(table(rng, L)), shift.symmetric(table(rng, L))
        c = i % 6
        if c in (1, 2):
            qa = shift.symmetric(qa.real)
        if c in (1, 3):
            qb = shift.symmetric(qb.real)
        if c == 4:
            qa, qb = shift.few(rng, qa), shift.few(rng, qb)
        if c == 5:          # one harmonic, a pure sine or cosine
            m = int(rng.integers(1, L+1))
            qa[:, [k for k in range(2*L+1) if abs(k-L) != m]] = 0
            qb[:, L+m] = qa[:, L+m]*rng.choice([1, 1j])
            qa, qb = shift.symmetric(qa), shift.symmetric(qb)
        mass = 10**rng.uniform(-9, 9)
        qa = qa*mass
        ok, v = ctx.call(ml.torque_lm, qa, qb)
        if not ok:
            continue
        t = rng.uniform(-7, 7, int(rng.integers(1, 9)))
        ms = np.arange(-L, L+1)
        n = -4j*np.pi*field.G*np.outer(1/(2*np.arange(L+1)+1), ms)*qa*qb
        sc = np.abs(n).sum()+1e-300
        for out in (False, True):
            ok, g = ctx.call(ml.torques_at_angle, v[1], v[2], t, out)
            if ok:
                want = np.exp((1j if out else -1j)*np.outer(t, ms)) @ n.sum(0)
                ctx.close(g, want.real, sc, 1e-12, 'tables:angles', {'L': L, 'a': qa, 'b': qb, 'angles': t, 'source spun': out})
        ctx.case(('t', L, qa, qb), True)
    # tables of different degree
    for i, rng in ctx.rounds(300, 6000, 'degrees'):
        La, Lb = int(rng.integers(0, 10)), int(rng.integers(0, 10))
        K = min(La, Lb)
        qa, qb = shift.symmetric(table(rng, La)), shift.symmetric(table(rng, Lb))
        inp = {'degrees': (La, Lb), 'a': qa, 'b': qb}
        sc = 4*np.pi*field.G*K*np.abs(cut(qa, K)).max()*np.abs(cut(qb, K)).max()+1e-300
        ok1, v = ctx.call(ml.torque_lm, qa, qb)
        m = np.arange(-K, K+1)
        want = -4j*np.pi*field.G*np.outer(1/(2*np.arange(K+1)+1), m)*cut(qa, K)*cut(qb, K)
        if ok1:
            ctx.close(v[0], want, sc, 1e-12, 'unequal degrees:rest', inp)
            ctx.expect(len(v[1]) == K+1 and len(v[2]) == K+1, 'unequal degrees:amplitudes', '', inp)
        mode = ['inner-inner', 'outer-outer', 'inner-outer'][i % 3]
        e = tuple(gen.typed(rng, float(x)) for x in rng.uniform(-4, 4, 3))
        d = rng.normal(size=3)*(.3 if i % 3 < 2 else 3)
        if i % 9 == 0:
            d = np.zeros(3)
        elif i % 9 == 4:
            d = np.array([0, 0, .4])
        ok1, v = ctx.call(ml.torque, qa, qb, e, d, mode)
        ok2, w = ctx.call(ml.torque, cut(qa, K), cut(qb, K), e, d, mode)
        if ok1 and ok2:
            s2 = max(np.abs(np.asarray(w[0])).max(), 1e-300)
            for x, y, nm in zip(v, w, ('table', 'cosine', 'sine')):
                ctx.close(x, y, s2*(K+1), 1e-12, 'unequal degrees:'+mode+':'+nm, {**inp, 'euler': e, 'shift': d})
        # embedding and truncation
        N = int(rng.integers(0, 13))
        src = qa if i % 2 else table(rng, La)
        ok, w = ctx.call(ml.embed_qlm, src, N)
        if ok:
            ctx.close(w, cut(src, N), 1., 0., 'embed', {'from': La, 'to': N, 'table': src})
        ctx.case(('d', La, Lb, N, qa), K > 0)
