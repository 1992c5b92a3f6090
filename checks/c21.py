"""MULTIN moment files come back as the table they hold, in SI units."""
import os
import numpy as np
import newt.read_multiFor as rm
from vrt import gen, harm, mpc, shift
from checks.c12 import table

RULE = ('random tables of real mass distributions and arbitrary symmetric ones, degree 0..20, magnitudes '
        '1e-12..1e12, several number formats, names of any form, with and without extension, extra header text, written as '
        'inner (cgs) and outer files; judged against the table written; non-trivial when degree>0')
QUICK = 3       # rounds of the quick tier are multiplied by this
REQUIRE = ['read_multiFor.read_gsq', 'read_multiFor.read_gbq']
ASSUME = ['m = 0 moments of real masses are real']

FMT = ['%.17E', '%.17e', '%r', '%25.17E']


def text(rng, q, L, inner):
    f = FMT[int(rng.integers(len(FMT)))]
    sep = str(rng.choice(['  ', '\t', '     ']))
    out = [str(rng.choice([' test part ', '', '12 13 14', 'title with  5'])),
           str(rng.choice([' %d       0', '%d', '  %d 5 6'])) % L]
    for k in range(6):
        out.append(str(rng.choice(['  1.216032E+01', ' T F', '  .0  .0 .0', '', '9 9 9'])))
    out.append('   .0000')
    for l in range(L+1):
        for m in range(l+1):
            v = q[l, L+m]/(1e-3*.01**l) if inner else q[l, L+m]
            tail = str(rng.choice(['', '', '  ']))
            out.append(str(rng.choice(['', '  ']))+f % float(v.real)+sep+f % float(v.imag)+tail)
    return '\n'.join(out)+('\n' if rng.random() < .7 else '')


def run(ctx):
    d = os.environ['VRT_SCRATCH']+'/files%d' % ctx.shard
    os.makedirs(d, exist_ok=True)
    for i, rng in ctx.rounds(400, 10000):
        L = int(rng.integers(0, 9)) if i % 4 else int(rng.integers(9, 21)) if i % 8 else int(rng.integers(21, 41))
        inner = i % 2 == 0
        if i % 3 == 0:
            p = gen.points(rng, 5, .1)
            if inner:
                q = harm.inner(L, p[:, 1:], p[:, 0])
            else:
                p[:, 1:] += gen.direction(rng)
                q = harm.outer(L, p[:, 1:], p[:, 0])
        else:
            q = shift.symmetric(table(rng, L))*10**rng.uniform(-12, 12)
            if i % 5 == 0:
                q[rng.random(L+1) < .4] = 0
        ext = '.gsq' if inner else '.gbq'
        # any name, with or without dots of its own, and the directory given or part of the name
        name = str(rng.choice(['f%d', 'pend_v1.%d', 'run %d.a', '%d', 'a.b.c%d', 'F-%d_x', 'gsq%d', '%d.gsq.old', 'x.gbq%d'])) % i
        with open(d+'/'+name+ext, 'w') as f:
            f.write(text(rng, q, L, inner))
        fn = rm.read_gsq if inner else rm.read_gbq
        arg = name+(ext if rng.random() < .5 else '')
        sub = rng.random() < .15
        ok, got = ctx.call(fn, os.path.basename(d)+'/'+arg, os.path.dirname(d)+'/') if sub else ctx.call(fn, arg, d+'/')
        inp = {'L': L, 'inner': inner, 'table': q}
        if ok:
            ctx.close(got, q, np.abs(q), 1e-13, 'inner' if inner else 'outer', inp)
            ctx.expect(np.iscomplexobj(got), 'complex', str(getattr(got, 'dtype', None)), inp)
        ctx.case((i, q), L > 0 and np.abs(q).max() > 0, {'L': L, 'file': name+ext})
        os.remove(d+'/'+name+ext)
