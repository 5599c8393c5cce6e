"""C19: time grids."""
import math
import random
import numpy as np
from tv import load_repo, ints
gt = load_repo()
U = gt.utilities
GEN = {'CJ': (U.time_ClaessonJaved, 'cells_per_level', 5), 'MP': (U.time_MarcottePasquier, 'non_expanding_cells', 48)}


def grids(ev, seed, kind, p, tmaxs):
    rng = random.Random(seed)
    f, name, default = GEN[kind]
    for m in tmaxs:
        # steps that make all times exact
        dt = rng.choice([3600., 3600, 900., 0.5, 86400, 8.])
        tmax = m / 1000. * dt
        if tmax == int(tmax) and rng.random() < .3:
            tmax = int(tmax)
        kw = {} if p == default and rng.random() < .8 else {name: p}
        t = np.asarray(f(dt, tmax, **kw), dtype=float)
        ev.append({'ev': 'Grid', 'kind': kind, 'p': p, 'tmax': m, 't': ints(t, 1000. / dt, cap=2 * 10 ** 9)})


def far(ev, seed, kind, p):
    """Grids of many more steps than there are integers in the specification."""
    rng = random.Random(seed)
    f, name, _ = GEN[kind]
    for _ in range(8):
        dt = rng.choice([1., 3600., 900.])
        tmax = 10. ** rng.uniform(6., 11.) * dt
        t = np.asarray(f(dt, tmax, **{name: p}), dtype=float)
        w = np.diff(np.concatenate(([0.], t)))
        ev.append({'ev': 'Far', 'kind': kind, 'p': p, 'x': ints(np.log2(w / dt), 1000.), 'end': ints(t[-2:] / tmax, 1e8, cap=2 * 10 ** 9)})


def geometric(ev, seed, n):
    rng = random.Random(seed)
    for k in range(12):
        dt = rng.choice([3600., 100., 1., 86400, 2629746.])
        r = [n * (1. + 10. ** rng.uniform(-2.5, min(4., 7. - math.log10(n)))), n * rng.uniform(.2, 1.), n, float(n + 1), n * 1.05, n * (1. + 10. ** rng.uniform(-9., -2.))][k % 6]
        tmax = r * dt
        e = bool(tmax > n * dt)
        t = np.asarray(U.time_geometric(dt, tmax, n), dtype=float)
        w = np.diff(np.concatenate(([0.], t)))
        ev.append({'ev': 'Geo', 'n': n, 'dt': round(dt / tmax * 1e8), 'expands': e, 't': ints(t, 1e8 / tmax, cap=2 * 10 ** 9),
                   'q': ints(w[1:] / w[:-1], 1e7, cap=2 * 10 ** 9), 'tol': 100})


FUNCS = {'grids': grids, 'far': far, 'geometric': geometric}
CFG = '''CONSTANTS TMax = %d
P = %d
GMut = "%s"
SPECIFICATION Spec
INVARIANTS InvGrid InvComplete InvPrefix InvDouble
'''


def main(chk):
    rng = chk.rng
    chk.design('MCTimeGrid', CFG % (60 if chk.quick else 400, 6 if chk.quick else 12, 'none'), label='Time grids')
    for m in ('floor', 'square'):
        chk.design('MCTimeGrid', CFG % (40, 4, m), expect={'InvGrid', 'InvPrefix'}, label='Time grids with ' + m)
    ts = []
    for kind in GEN:
        for p in list(range(1, 13)) + [20, 48] + ([24, 72, 100] if not chk.quick else []):
            # every half step to the third level, and far
            m = [500 * k for k in range(1, 6 * p + 8)] + [1000 * k + d for k in (2 * p, 3 * p, 7 * p) for d in (-1, 1)]
            for _ in range(40 if chk.quick else 300):
                m.append(rng.randrange(1, 10 ** rng.randint(3, 9)))
            for i in range(0, len(m), 60):
                ts.append((f'{kind}-{p}-{i}', 'grids', dict(seed=rng.getrandbits(30), kind=kind, p=p, tmaxs=m[i:i + 60])))
        for p in (1, 2, 5, 7, 48):
            ts.append((f'far-{kind}-{p}', 'far', dict(seed=rng.getrandbits(30), kind=kind, p=p)))
    for n in list(range(1, 41)) + [76, 100, 500] + ([2000, 8760] if not chk.quick else []):
        for k in range(1 if chk.quick else 10):
            ts.append((f'geo-{n}-{k}', 'geometric', dict(seed=rng.getrandbits(30), n=n)))
    eps = chk.run(FUNCS, ts)
    chk.bounds = {'grids': 'all maximum times up to three levels by half steps, and up to 10^6 steps at random; 1 to 48 cells per level'}
    chk.validate('TraceTimeGrid', eps, 'CONSTANT GMut = "none"\nSPECIFICATION Spec\n')
