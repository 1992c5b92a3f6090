"""Runs calls of the Octave functions in one octave-cli process and brings the values back."""
import os
import subprocess
import numpy as np
from scipy.io import loadmat, savemat
from vrt import core

DRIVER = r"""
warning('off', 'all');
pkg load gsl
addpath('%(root)s/matlab-src', '%(root)s/matlab-src/shapes', '%(dir)s');
S = load('%(inp)s'); cases = S.cases; out = cell(1, numel(cases));
for k = 1:numel(cases)
  c = cases{k}; r = struct('ok', false, 'err', '', 'val', {{}});
  rand('twister', double(c.seed)); randn('twister', double(c.seed));
  a = c.args; if (! iscell(a)), a = num2cell(a); end
  v = cell(1, double(c.nout));
  try
    [v{:}] = feval(c.fn, a{:});
    r.ok = true; r.val = v;
  catch e
    r.err = e.message;
  end
  out{k} = r;
end
save('-v6', '%(out)s', 'out');
"""


class Batch:
    """collect calls with add(), execute with run(); results in the same order."""

    def __init__(self, ctx):
        self.ctx, self.cases, self.tags = ctx, [], []

    def add(self, fn, *args, nout=1, seed=1, tag=None):
        a = np.empty((1, len(args)), dtype=object)
        for i, x in enumerate(args):
            a[0, i] = np.asarray(x, dtype=float)
        self.cases.append({'fn': fn, 'args': a, 'nout': float(nout), 'seed': float(seed)})
        self.tags.append(tag)
        self.ctx.events['octave.'+fn] += 1

    def run(self, files=(), limit=240):
        """list of (tag, ok, values or error)."""
        if not self.cases:
            return []
        d = os.path.join(os.environ['VRT_SCRATCH'], 'oct%d' % self.ctx.shard)
        os.makedirs(d, exist_ok=True)
        for name, body in files:
            with open(os.path.join(d, name), 'w') as f:
                f.write(body)
        c = np.empty((1, len(self.cases)), dtype=object)
        for i, x in enumerate(self.cases):
            c[0, i] = x
        p = {'root': core.REPO, 'dir': d, 'inp': d+'/in.mat', 'out': d+'/out.mat'}
        if os.path.exists(p['out']):
            os.remove(p['out'])
        savemat(p['inp'], {'cases': c})
        with open(d+'/drive_all.m', 'w') as f:
            f.write(DRIVER % p)
        cmd = ['octave-cli', '--no-init-file', '--quiet']
        quiet = dict(stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, cwd=d, stdin=subprocess.DEVNULL)
        try:
            err = subprocess.run(cmd+[d+'/drive_all.m'], timeout=limit, **quiet).stderr
        except subprocess.TimeoutExpired:
            self.ctx.fail('octave:hang', f'{len(self.cases)} calls not finished after {limit} s')
            return []
        if not os.path.exists(p['out']):
            probe = subprocess.run(cmd+['--eval', 'pkg load gsl; exit(7)'], timeout=120, **quiet)
            if probe.returncode != 7:
                raise RuntimeError('octave does not work here: '+probe.stderr[-800:])
            self.ctx.fail('octave:crash', err[-800:])
            return []
        o = loadmat(p['out'], chars_as_strings=True)['out']
        res = []
        for k in range(len(self.cases)):
            e = o[0, k][0, 0]
            ok = bool(e['ok'].ravel()[0])
            if ok:
                v = e['val']
                while v.dtype == object and v.shape == (1, 1) and isinstance(v[0, 0], np.ndarray) and v[0, 0].dtype == object:
                    v = v[0, 0]
                res.append((self.tags[k], True, [np.asarray(x) for x in v.ravel()]))
            else:
                res.append((self.tags[k], False, str(e['err'])))
        return res
