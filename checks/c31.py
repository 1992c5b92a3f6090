"""Displays show the points they are given, all of them, where they are."""
import io
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.colors as mc
import matplotlib.pyplot as plt
import newt.glib as glb
from vrt import gen, octave

RULE = ('random pairs of point arrays (1..60 points, mixed signs, zero masses, scales 1e-6..1e6) drawn with and without mass '
        'scaling, every marker read back from the figure the call returns, a sample rendered; Octave displays of pairs and of random '
        'subsets read back from the axes; non-trivial: every case')
QUICK = 2       # rounds of the quick tier are multiplied by this
REQUIRE = ['glib.display_points', 'rendered figures', 'octave.vrt_shown']
ASSUME = ['with mass scaling only positions and areas are judged, without it the colours tell the sign; points of zero mass may be left out',
          'random subsets are judged at 6.5 standard deviations']
SHOWN = """function [X, Y, Z, C, N] = vrt_shown(A, B, f)
  h = figure('visible', 'off');
  if (f < -.5) displayPoints(A, B); else displayPointsRandomSubset(A, B, f); end
  c = get(gca(), 'children'); X = []; Y = []; Z = []; C = []; N = [];
  for k = 1:numel(c)
    x = get(c(k), 'xdata')(:); y = get(c(k), 'ydata')(:); z = get(c(k), 'zdata')(:); n = numel(x);
    X = [X; x]; Y = [Y; y]; Z = [Z; z]; N = [N; k*ones(n, 1)]; C = [C; repmat(get(c(k), 'color'), n, 1)];
  end
  close(h);
end
"""


def order(p):
    return p[np.lexsort(p.T)]


def markers(ax):
    """x, y, z, area, colour of every marker in the axes."""
    out = []
    for c in ax.collections:
        x, y, z = (np.asarray(np.ma.filled(v, np.nan), float).ravel() for v in c._offsets3d)
        s, col = np.atleast_1d(c.get_sizes()), np.atleast_2d(c.get_facecolor())
        for k in range(len(x)):
            out.append((x[k], y[k], z[k], s[k % len(s)], mc.to_hex(col[k % len(col)])))
    return out


def run(ctx):
    for i, rng in ctx.rounds(64, 800):
        s = gen.scale(rng, -6, 6)
        a, b = (gen.points(rng, int(rng.integers(1, 30)), s, signed=bool(rng.random() < .8)) for _ in range(2))
        for p in (a, b):
            p[:, 0] /= np.abs(p[:, 0]).max()+(0 if p[:, 0].any() else 1)
            if rng.random() < .2:
                p[:, 0] *= -1
        scaled = i % 16 >= 8
        inp = {'pm1': a, 'pm2': b, 'scale_mass': scaled}
        keep = a.copy(), b.copy()
        ok, v = ctx.call(glb.display_points, a, b, scaled)
        if not ok:
            continue
        try:
            fig, ax = v
            ctx.expect(np.array_equal(a, keep[0]) and np.array_equal(b, keep[1]), 'display changed its arguments', '', inp)
            if not ctx.expect(ax in fig.axes, 'display:axes not in the figure', f'{len(fig.axes)} axes in the figure', inp):
                continue
            got = markers(ax)
            g = np.array([m[:3] for m in got]).reshape(-1, 3)
            colour = {}
            for p, who in ((a, 1), (b, 2)):
                for m, *x in p:
                    if m == 0:
                        continue
                    d = np.abs(g-np.array(x)).max(1) if len(g) else np.zeros(0)
                    hit = [k for k in np.flatnonzero(d <= 1e-12*s)]
                    if not ctx.expect(hit, 'display:point missing', f'{m, x} of array {who}', inp):
                        break
                    n = np.abs(p[(np.abs(p[:, 1:]-np.array(x)).max(1) <= 1e-12*s), 0])
                    if scaled and len(n) == 1:
                        ctx.close(got[hit[0]][3], 100*len(p)*abs(m), abs(m)*len(p), 1e-9, 'display:area', inp)
                    if len(n) == 1:
                        colour.setdefault((who, not scaled and m < 0), set()).add(got[hit[0]][4])
            nz = sum(int((p[:, 0] != 0).sum()) for p in (a, b))
            ctx.expect(nz <= len(got) <= len(a)+len(b), 'display:markers', f'{len(got)} markers for {nz} points', inp)
            flat = [c for v in colour.values() for c in v]
            ctx.expect(len(set(flat)) == len(flat) == len(colour), 'display:colours', str(colour), inp)
            if i % 64 < 16:
                ok, _ = ctx.call(fig.savefig, io.BytesIO(), format='png', dpi=40, _kind='display:render')
                if ok:
                    ctx.events['rendered figures'] += 1
                    im = np.asarray(fig.canvas.buffer_rgba())
                    ctx.expect(im[..., :3].min() < 250, 'display:blank figure', '', inp)
            ctx.case((i, scaled), True, {'n1': len(a), 'n2': len(b), 'scaled': scaled})
        finally:
            plt.close('all')
    b = octave.Batch(ctx)
    for i, rng in ctx.rounds(64, 480, 'octave'):
        s = gen.scale(rng, -3, 3)
        n = int(rng.integers(1, 40)) if i % 16 < 8 else int(rng.integers(300, 1500))
        A, B = gen.points(rng, n, s), gen.points(rng, max(1, n//int(rng.integers(1, 3))), s, center=3*s*gen.unit(rng))
        f = -1. if i % 16 < 8 else float(rng.choice([1., rng.uniform(.2, .9)]))
        b.add('vrt_shown', A, B, np.array(f), nout=5, seed=i+1, tag=(A, B, f))
    ctx.label = None
    for (A, B, f), ok, v in b.run([('vrt_shown.m', SHOWN)]):
        inp = {'a': A, 'b': B, 'fraction': f}
        if not ok:
            ctx.fail('octave display:exception', v, inp)
            continue
        X = np.column_stack([np.asarray(x, float).ravel() for x in v[:3]])
        C = np.asarray(v[3], float).reshape(-1, 3)
        ctx.case((A, f), True, {'n1': len(A), 'n2': len(B), 'fraction': f})
        ctx.expect((np.abs(X).max(1) == 0).any(), 'octave display:origin', '', inp)
        for P, col, name in ((A, (0, 0, 1), 'first'), (B, (1, 0, 0), 'second')):
            g = X[(C == col).all(1)]
            if f < 0 or f == 1.:
                if ctx.expect(len(g) == len(P), 'octave display:points', f'{len(g)} of {len(P)} in the {name} array', inp):
                    ctx.close(order(g), order(P[:, 1:]), np.abs(P[:, 1:]).max(), 1e-12, 'octave display:positions', inp)
            else:
                sd = np.sqrt(len(P)*f*(1-f))
                ctx.expect(abs(len(g)-f*len(P)) < 6.5*sd+1, 'octave display:fraction',
                           f'{len(g)} of {len(P)} at fraction {f}', inp)
                known = {tuple(x) for x in P[:, 1:]}
                ctx.expect(all(tuple(x) in known for x in g), 'octave display:subset', '', inp)
                # no half of the array is preferred
                k = {tuple(x): j for j, x in enumerate(P[:, 1:])}
                h = sum(k.get(tuple(x), 0) < len(P)//2 for x in g)
                ctx.expect(abs(h-f*(len(P)//2)) < 6.5*np.sqrt(len(P)/2*f*(1-f))+2, 'octave display:biased subset', f'{h}', inp)
