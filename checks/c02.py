"""C02: simulations with several sources, any order of advance, set, query and
re-initialization.  The call sequences are behaviours of MCLoadAgg."""
import numpy as np
from tv import load_repo, ints
from c01 import make
gt = load_repo()
U = 10**5
GENCFG = '''CONSTANTS Mut = "none"
Configs <- CfgAll
MaxSteps = %d
LoadSet <- GenLoads
Gen = %d
SPECIFICATION Spec
INVARIANTS InvPartition InvBlockSizes InvLiuBounds InvLastWins
CONSTRAINT Emit
'''


def simulate(ev, kind, par, cpl, steps, ns, flat, calls, seed, dt):
    rng = np.random.default_rng(seed)
    lag = make(kind, dt, steps, par, ns, cpl)
    times = np.asarray(lag.get_times_for_simulation(), dtype=float)
    n = len(times)

    def init():
        dg = rng.integers(0, 10, (ns, ns, n))
        g = np.cumsum(dg, axis=2).astype(float)
        if flat:
            g = g[0, 0]
        lag.initialize(g)
        ev.append({'ev': 'Init', 'dg': dg.tolist()})
        g[:] = 77.      # the caller may reuse its array
        if kind == 'CJ':
            inc = np.asarray(lag.get_thermal_response_factor_increment(), dtype=float)
            ev.append({'ev': 'Incr', 'inc': ints(inc.reshape(ns * ns, n), U), 'want': (dg.reshape(ns * ns, n) * U).tolist()})
            inc[:] = 77.
    ev.append({'ev': 'New', 'kind': kind, 'par': par, 'cpl': cpl, 'end': round(1000 * steps),
               'times': ints(times / dt, 1000.), 'ns': ns, 'probe': False,
               'tol': 200 + 40 * ns * n * (int(times[-1] / dt) if kind == 'CJ' else 1)})
    init()
    t = 0.
    for c in calls:
        if c[0] == 'Adv':
            t += dt
            lag.next_time_step(t)
            ev.append({'ev': 'Adv'})
        elif c[0] == 'Set':
            q = np.array([c[1]] + [int(x) for x in rng.integers(-6, 7, ns - 1)], dtype=float)
            arg = q.copy() if ns > 1 else (q.copy() if rng.random() < .5 else float(q[0]))
            lag.set_current_load(arg)
            ev.append({'ev': 'Set', 'q': ints(q, U)})
            if isinstance(arg, np.ndarray):
                arg[:] = 99.      # the caller may reuse its array
        elif c[0] == 'Init':
            init()
        elif c[0] == 'Query':
            T = np.asarray(lag.temporal_superposition(), dtype=float)
            if T.size != ns:
                raise ValueError(f'size {T.size}')
            e = {'ev': 'Query', 'T': ints(T.ravel(), U, cap=2 * 10**9 // 2)}
            if kind == 'CJ':      # MLAA and Liu give arrays of their own shapes
                e.update(shape=list(T.shape), flat=flat)
            ev.append(e)


FUNCS = {'simulate': simulate}


def main(chk):
    import c01
    # Designs, in the background
    chk.design('MCLoadAgg', c01.DESIGN % ('none', 'CfgCJ', 4 if chk.quick else 7, '1, 3'), label='LoadAgg cells')
    chk.design('MCLoadAgg', c01.DESIGN % ('set-adds', 'CfgCJ', 4, '1, 3'), expect={'InvLastWins'},
               label='LoadAgg with set-adds')
    depth = 42 if chk.quick else 90
    beh = chk.behaviours('MCLoadAgg', GENCFG % (30, depth), simulate=(80 if chk.quick else 1500, depth + 1),
                         label='LoadAgg behaviours')
    ts = []
    rng = chk.rng
    for i, b in enumerate(beh):
        _, kind, par = b[0]
        calls = b[1:]
        n = sum(c[0] == 'Adv' for c in calls)
        ns = rng.choice([1, 1, 2, 3])
        cpl, p = (sum(w == 1 for w in par), []) if kind == 'CJ' else (0, par)
        steps = n + rng.choice([0, 1, 3]) if kind != 'CJ' else max(sum(par), rng.randint(1, 2 * n + 2))
        ts.append((f'beh-{i}', 'simulate', dict(kind=kind, par=p, cpl=cpl, steps=steps, ns=ns,
                                                flat=ns == 1 and rng.random() < .6,
                                                calls=calls + [['Query']], seed=rng.getrandbits(30),
                                                dt=rng.choice([1., 3600., 86400.]))))
    # long simulations, among them the default configurations
    long = [('MLAA', [12, 48, 168, 360], 640), ('Liu', [24, 5, 73, 12, 3, 40], 400), ('CJ', [], 500),
            ('Liu', [4, 3, 5, 2, 3, 2], 400), ('MLAA', [5, 20, 30, 40], 300), ('CJ', [], 300)]
    for i, (kind, par, n) in enumerate(long):
        calls = []
        for k in range(n):
            calls.append(['Adv'])
            if rng.random() < .9:
                calls.append(['Set', rng.randint(-7, 8)])
            if rng.random() < .04 or k == n - 1:
                calls.append(['Query'])
        ts.append((f'long-{i}', 'simulate', dict(kind=kind, par=par, cpl=5, steps=n, ns=1, flat=kind == 'CJ',
                                                 calls=calls, seed=i, dt=3600.)))
    eps = chk.run(FUNCS, ts)
    chk.bounds = {'behaviours': f'{len(beh)} behaviours of the specification of {depth} calls, 1 to 3 sources',
                  'long': 'default configurations up to 640 steps'}
    chk.validate('TraceLoadAgg', eps, 'SPECIFICATION Spec\nCONSTANTS Mut = "none"\nGMut = "none"\n')
