"""Volume, centroid and second moments of CadQuery solids; reference for them."""
import numpy as np
import cadquery as cq
from vrt import solids as S


def props(mesh):
    """(volume, integral of x, integral of x x^T) of everything in the workplane."""
    vs = mesh.vals() if hasattr(mesh, 'vals') else [mesh]
    V, A, B = 0., np.zeros(3), np.zeros((3, 3))
    for x in vs:
        v = x.Volume()
        c = np.array(cq.Shape.centerOfMass(x).toTuple())
        I = np.array(cq.Shape.matrixOfInertia(x))
        # about the centroid; second moment = tr(I)/2 E - I
        B += np.trace(I)/2*np.eye(3)-I+v*np.outer(c, c)
        A += v*c
        V += v
    return V, A, B


def ref(c):
    x, w = c
    return float(w.sum()), w @ x, (x.T*w) @ x


def judge(ctx, mesh, parts, kind, inp, tol=1e-6):
    """parts: list of (sign, cubature) making up the solid disjointly."""
    ok, got = ctx.call(props, mesh, _kind=kind+':measure')
    if not ok:
        return
    V, A, B = 0., np.zeros(3), np.zeros((3, 3))
    sv, r = 0., 0.
    for sg, c in parts:
        v, a, b = ref(c)
        V, A, B = V+sg*v, A+sg*a, B+sg*b
        sv += v
        r = max(r, float(np.sqrt((c[0]**2).sum(1)).max()))
    ctx.close(got[0], V, sv, tol, kind+':volume', inp)
    ctx.close(got[1], A, sv*r, tol, kind+':centroid', inp)
    ctx.close(got[2], B, sv*r*r, tol, kind+':second moments', inp)
