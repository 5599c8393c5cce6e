"""C01: aggregation cells account for every past load exactly once.  All cells
are observed in one simulation: source i of the simulation only responds, with
unit factor, to the aggregated load of source 0 in cell i."""
import numpy as np
from tv import load_repo, ints, shaped
gt = load_repo()
U = 10**6


def make(kind, dt, steps, par, ns, cpl=5):
    la = gt.load_aggregation
    tmax = steps * dt
    if kind == 'CJ':
        return la.ClaessonJaved(dt, tmax, nSources=ns, cells_per_level=cpl)
    if kind == 'MLAA':
        return la.MLAA(dt, tmax, nSources=ns, N0=par[0], N1=par[1], N2=par[2], N3=par[3])
    return la.Liu(dt, tmax, nSources=ns, N1=par[0], N2=par[1], N3=par[2], W1=par[3], W2=par[4], W3=par[5])


def probe(ev, kind, dt, steps, par, cpl, loads, every):
    """loads: per step a list of successive set values (possibly none)."""
    times = np.asarray(make(kind, dt, steps, par, 1, cpl).get_times_for_simulation(), dtype=float)
    n = len(times)
    lag = make(kind, dt, steps, par, n, cpl)
    g = np.zeros((n, n, n))
    for i in range(n):
        g[i, 0, i:] = 1.
    lag.initialize(g)
    e = {'ev': 'New', 'kind': kind, 'par': par, 'cpl': cpl, 'end': round(1000 * steps),
         'times': ints(times / dt, 1000.), 'ns': 1, 'probe': True,
         'tol': 3 + int(times[-1] / dt) if kind == 'CJ' else 4}
    ev.append(e)
    t = 0.
    rng = np.random.default_rng(len(loads))
    for k, sets in enumerate(loads):
        t += dt
        lag.next_time_step(t)
        ev.append({'ev': 'Adv'})
        if not sets and k % 2:
            query(ev, lag, n)
        for x in sets:
            q = rng.uniform(-5., 5., n)      # other sources do not matter
            q[0] = x
            lag.set_current_load(q)
            ev.append({'ev': 'Set', 'q': [round(x * U)]})
        if k % every == every - 1 or k == len(loads) - 1:
            query(ev, lag, n)


def query(ev, lag, n):
    T = np.asarray(lag.temporal_superposition(), dtype=float)
    if T.size != n:
        raise ValueError(f'size {T.size}')
    ev.append({'ev': 'Query', 'T': ints(T.ravel(), U)})


FUNCS = {'probe': probe}
DESIGN = '''CONSTANTS Mut = "%s"
Configs <- %s
MaxSteps = %d
LoadSet = {%s}
Gen = 0
SPECIFICATION Spec
INVARIANTS InvPartition InvBlockSizes InvLiuBounds InvEnergy InvCurrent InvLastWins
CONSTRAINT Bound
'''


def designs(chk):
    q = chk.quick
    chk.design('MCLoadAgg', DESIGN % ('none', 'CfgBlocks', 40 if q else 120, ''), label='LoadAgg blocks')
    chk.design('MCLoadAgg', DESIGN % ('none', 'CfgCJ', 4 if q else 7, '1, 3'), label='LoadAgg cells')
    for m, cfg, inv in (('cj-width', 'CfgCJ', 'InvEnergy'), ('cj-inflow', 'CfgCJ', 'InvEnergy'),
                        ('mlaa-gap', 'CfgBlocks', 'InvPartition'), ('liu-threshold', 'CfgBlocks', 'InvLiuBounds'),
                        ('liu-cut', 'CfgBlocks', 'InvPartition'), ('liu-newest', 'CfgBlocks', 'InvPartition'),
                        ('set-adds', 'CfgCJ', 'InvLastWins')):
        chk.design('MCLoadAgg', DESIGN % (m, cfg, 40 if cfg == 'CfgBlocks' else 4, '' if cfg == 'CfgBlocks' else '1, 3'),
                   expect={inv}, label='LoadAgg with ' + m)


def configs(rng, quick):
    """(kind, par, cpl, steps): all small configurations, and random ones."""
    out = []
    for cpl in (1, 2, 3, 5, 7):
        for steps in (1, 2, 3, 7, 12.5, 24, 40):
            out.append(('CJ', [], cpl, steps))
    for N0 in (1, 2, 4):
        for N1 in (1, 3):
            for N2 in (1, 4):
                for N3 in (1, 5):
                    out.append(('MLAA', [N0, N1, N2, N3], 0, N0 + N1 + N2 + N3 + 4))
    out += [('MLAA', [12, 48, 168, 360], 0, 20), ('MLAA', [3, 5, 7, 11], 0, 29.3),
            ('MLAA', [5, 2, 9, 3], 0, 26)]
    for N1 in (1, 2, 3):
        for N2 in (1, 2, 3):
            for W in ((1, 1, 1), (2, 1, 3), (1, 3, 2)):
                N3 = 2
                out.append(('Liu', [N1, N2, N3] + list(W), 0, N1 * (1 + W[0]) + N1 * N2 * (W[1] + N3 * (W[2] + 2)) + 3))
    out += [('Liu', [2, 2, 3, 2, 2, 2], 0, 45.5), ('Liu', [24, 5, 73, 12, 3, 40], 0, 40)]
    n = 40 if quick else 400
    for _ in range(n):
        k = rng.choice(['CJ', 'MLAA', 'Liu'])
        s = rng.randint(3, 48 if quick else 90)
        if k == 'CJ':
            out.append((k, [], rng.randint(1, 9), s))
        elif k == 'MLAA':
            out.append((k, [rng.randint(1, 6), rng.randint(1, 12), rng.randint(1, 12), rng.randint(1, 12)], 0, s))
        else:
            out.append((k, [rng.randint(1, 4) for _ in range(6)], 0, s))
    return out


def tasks(chk):
    rng = chk.rng
    ts = []
    for i, (kind, par, cpl, steps) in enumerate(configs(rng, chk.quick)):
        n = int(np.ceil(steps))
        loads = []
        for k in range(n):
            m = rng.choice([0, 1, 1, 1, 1, 2])
            loads.append([rng.choice([-7.5, -3, -1, 0, 2, 5, 8.25]) for _ in range(m)])
        dt = rng.choice([1., 900., 3600., 86400.])
        ts.append((f'{kind}-{i}', 'probe', dict(kind=kind, dt=dt, steps=steps, par=par, cpl=cpl,
                                                loads=loads, every=1 if n < 25 else 3)))
    return ts


def main(chk):
    designs(chk)
    eps = chk.run(FUNCS, tasks(chk))
    chk.bounds = {'design': 'blocks: all MLAA N<=3 / Liu N,W<=3 configurations; cells: CJ widths up to 4',
                  'runs': f'{len(eps)} simulations of up to 90 steps, every cell observed'}
    chk.validate('TraceLoadAgg', eps, 'SPECIFICATION Spec\nCONSTANTS Mut = "none"\nGMut = "none"\n')
