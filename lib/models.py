"""Construction of model objects from JSON-like descriptors."""
import numpy as np
from tv import load_repo
gt = load_repo()


def borehole(d):
    """d: dict or [H, D, r_b, x, y, tilt, orientation]"""
    return gt.boreholes.Borehole(*d[:5], tilt=d[5] if len(d) > 5 else 0.,
                                 orientation=d[6] if len(d) > 6 else 0.)


PIPES = ['single', 'multi-par-2', 'multi-ser-2', 'multi-par-3', 'multi-ser-3', 'coax-in', 'coax-out']


def around(n, D, phase=0.):
    """Positions of 2n pipes: n inlets then n outlets."""
    a = phase + np.pi * np.arange(2 * n) / n
    return [(float(D * np.cos(t)), float(D * np.sin(t))) for t in a]


def pipe(kind, b, k_s=2., k_g=1., R_fp=0.1, J=2, reversible=True, D=0.05, r_in=0.0108, r_out=0.0134,
         phase=0., R_ff=0.15, pos=None, keep=None):
    """A pipe that fits in a borehole of radius 0.075 m; keep collects the arguments that can be changed in place."""
    P = gt.pipes
    keep = [] if keep is None else keep

    def at(n):
        keep.append(list(pos) if pos is not None else around(n, D, phase))
        return keep[-1]
    if kind == 'single':
        return P.SingleUTube(at(1), r_in, r_out, b, k_s, k_g, R_fp, J, reversible)
    if kind.startswith('multi-'):
        n = int(kind[-1])
        return P.MultipleUTube(at(n), r_in, r_out, b, k_s, k_g, R_fp, n,
                               'parallel' if 'par' in kind else 'series', J, reversible)
    if kind.startswith('indep-'):
        n = int(kind[-1])
        return P.IndependentMultipleUTube(at(n), r_in, r_out, b, k_s, k_g, R_fp, n, J, reversible)
    ri, ro = [0.0221, 0.0487], [0.025, 0.055]
    if kind == 'coax-in':
        ri, ro = ri[::-1], ro[::-1]
    keep += [np.array(ri), np.array(ro)]
    return P.Coaxial((0., 0.) if pos is None else pos, *keep[-2:], b, k_s, k_g, R_ff, R_fp, J, reversible)


def scattered(rng, n, r_out=.0134, r_b=.075):
    """Positions of 2n pipes anywhere in a borehole, clear of each other and the wall."""
    pos = []
    while len(pos) < 2 * n:
        a, r = rng.uniform(0., 2 * np.pi), rng.uniform(0., r_b - 1.1 * r_out)
        p = (float(r * np.cos(a)), float(r * np.sin(a)))
        if all(np.hypot(p[0] - q[0], p[1] - q[1]) > 2.2 * r_out for q in pos):
            pos.append(p)
        elif rng.random() < .02:
            pos = []
    return pos


def ratios(rng, n, mode=None):
    """Segment ratios: uniform, random or symmetric."""
    if n == 1:
        return np.array([1.])
    w = [rng.uniform(.2, 1.) for _ in range(n)]
    return np.array(w) / sum(w)


def anywhere(rng, kind):
    """Positions of the pipes of a kind around the axis (None) or scattered, equally often."""
    if rng.random() < .5:
        return None
    if kind.startswith('coax'):
        return rng.uniform(-.01, .01), rng.uniform(-.01, .01)
    return scattered(rng, int(kind[-1]) if kind[-1].isdigit() else 1)
