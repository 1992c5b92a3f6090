"""MULTIN programs: the table read is that of the mass the program describes."""
import os
import numpy as np
import newt.read_multiFor as rm
from vrt import harm, mpc

BASIC = ['cylinder', 'sphere', 'cone', 'triangle', 'trapezoid', 'partcylinder', 'tetrahedron', 'pyramid',
         'rectangle']
RULE = ('random command histories of 1..14 steps (create of every shape, placed or not, rotate, translate, '
        'repeated add, zero/get/put of the total, unit changes, loads, unknown shapes, comments, blank lines, '
        'missing end, text after end, parts and comments named like commands) written as files; judged against cubature of the mass elements moved '
        'by an independent interpreter; non-trivial when the total has mass elements')
QUICK = 3       # rounds of the quick tier are multiplied by this
REQUIRE = ['read_multiFor.read_mpc']
ASSUME = ['rotations act about the origin, as moments do; plate holes need degree <= 5, drilled cylinders '
          'are judged at the accuracy of the numerical integrator (1e-4)',
          'the directory name holds "mpc" once']


def judge(ctx, P, L, kind, tol):
    d = os.environ['VRT_SCRATCH']+'/%d_%d' % (ctx.shard, ctx.evals)
    os.makedirs(d+'/mpc')
    os.mkdir(d+'/mom')
    text = P.text()
    with open(d+'/mpc/prog.mpc', 'w') as f:
        f.write(text)
    for n, t in P.gsq.items():
        with open(d+'/mom/'+n, 'w') as f:
            f.write(t)
    name = 'prog' if P.rng.random() < .5 else 'prog.mpc'
    ok, q = ctx.call(rm.read_mpc, L, name, d+'/mpc/', _limit=200)
    x, w, arm = P.total
    inp = {'L': L, 'program': text}
    if ok:
        if len(w):
            want = harm.inner(L, x, w)
            # rounding is set by the farthest each mass has been carried
            sc = np.array([np.sum(np.abs(w)*arm**k) for k in range(L+1)])
        else:
            want, sc = np.zeros((L+1, 2*L+1)), np.full(L+1, 1e-300)
        l = np.arange(L+1.)
        ctx.close(q, want, (sc*np.sqrt(2*l+1))[:, None], tol, kind, inp)
    for step in P.log:
        ctx.events['step '+step[0]+(' '+step[1] if step[0] == 'create' else '')] += 1
    ctx.case(text, len(w) > 0, {'L': L, 'steps': [str(s)[:80] for s in P.log[:8]]})


def run(ctx):
    for i, rng in ctx.rounds(240, 5000):
        names = BASIC+['platehole'] if i % 3 == 0 else BASIC
        L = int(rng.integers(0, 6)) if i % 3 == 0 else int(rng.integers(0, 9))
        P = mpc.random_program(rng, L, names, int(rng.integers(1, 15)) if i % 12 else int(rng.integers(15, 50)))
        judge(ctx, P, L, 'history', 1e-12)
    # every shape on its own, at the origin and placed, added at once or later
    for i, rng in ctx.rounds(20*len(BASIC), 300*len(BASIC), 'single'):
        name = (BASIC+['platehole'])[i % 10]
        L = 5 if name == 'platehole' else int(rng.integers(2, 8))
        P = mpc.Program(rng, L, [name])
        if rng.random() < .3:
            P.put('inchin')
            P.f = 25.4e-3
        P.create()
        if rng.random() < .3:
            P.step()
        P.put('add')
        P.add()
        P.finish()
        judge(ctx, P, L, 'single:'+name, 1e-12)
    for i, rng in ctx.rounds(8, 64, 'drilled'):
        L = int(rng.integers(0, 3))
        P = mpc.Program(rng, L, ['cylhole'])
        P.create()
        P.put('add')
        P.add()
        judge(ctx, P, L, 'cylhole', 1e-4)
