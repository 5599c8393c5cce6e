"""C06: energy balances of borehole heat exchangers."""
import random
import warnings
import numpy as np
import tv
from tv import load_repo, shaped, scale_of, attempt
from models import pipe, ratios, scattered
gt = load_repo()
def ints(x, s):
    return tv.ints(x, s, cap=4 * 10**7)


UC = 200.       # W/K of one unit of heat capacity rate
UT = 20000.     # scaled temperature per K


def tag(kind):
    """Spec name (kind, n) of a pipe of models.pipe."""
    if kind == 'single' or kind.startswith('coax'):
        return 'ser', 1
    return {'multi-par': 'par', 'multi-ser': 'ser', 'indep': 'ind'}[kind[:-2]], int(kind[-1])


def conductances(kind, b, q):
    """Conductance matrix (W/m-K) of the delta circuit, diagonal to the wall."""
    kw = dict(k_s=q['k_s'], k_g=q['k_g'], R_fp=q['R_fp'])
    if kind.startswith('coax'):
        Rfg = gt.pipes.thermal_resistances([q['pos'] or (0., 0.)], 0.055, b.r_b, kw['k_s'], kw['k_g'], kw['R_fp'], J=q['J'])[1][0, 0]
        i = 0 if kind == 'coax-in' else 1       # outer pipe
        G = np.full((2, 2), 1. / q['R_ff'])
        G[i, i] = 1. / Rfg
        G[1 - i, 1 - i] = 0.
        return G
    p = pipe(kind, b, J=q['J'], D=q['D'], phase=q['phase'], pos=q['pos'], **kw)
    Rd = gt.pipes.thermal_resistances(p.pos, p.r_out, b.r_b, kw['k_s'], kw['k_g'], kw['R_fp'], J=q['J'])[1]
    return 1. / Rd


def forms(ev, p, n, nc, nseg, m, cp, sr, rng):
    """Shapes of results: numbers for numbers, arrays for arrays."""
    def shape(f, *a):
        r, err = attempt(f, *a, segment_ratios=sr)
        return [-1] if err else [int(x) for x in np.shape(r)]
    fluid = [('array', rng.uniform(0., 30.) * np.ones(nc))] + ([('number', rng.choice([4., 7]))] if nc == 1 else [])
    flow = m if nc > 1 else rng.choice([float(np.ravel(m)[0]), m])
    walls = [('array', np.full(nseg, 10.))] + ([('number', rng.choice([10., 3]))] if nseg == 1 else [])
    nz = rng.randint(1, 4)
    for ff, tf in fluid:
        for fw, tb in walls:
            a = (tf, tb, flow, cp)
            e = {'ev': 'Form', 'fluid': ff, 'wall': fw, 'n': n, 'nc': nc, 'nseg': nseg, 'nz': nz}
            for k, f in (('inlet', p.get_inlet_temperature), ('outlet', p.get_outlet_temperature),
                         ('segments', p.get_borehole_heat_extraction_rate), ('heat', p.get_fluid_heat_extraction_rate),
                         ('total', p.get_total_heat_extraction_rate)):
                e[k] = shape(f, *a)
            e['depth'] = shape(p.get_temperature, 5., *a)
            e['depths'] = shape(p.get_temperature, np.linspace(0., 50., nz), *a)
            ev.append(e)


def case(ev, kind, rev, C, seed, nseg, uniform=False, nonrev=False, cpform='scalar'):
    rng = random.Random(seed)
    warnings.simplefilter('ignore')
    sk, n = tag(kind)
    nc = n if sk == 'ind' else 1
    H = rng.choice([80., 100., 151.])
    b = gt.boreholes.Borehole(H, rng.uniform(1., 5.), 0.075, 0., 0., tilt=rng.choice([0., .2]), orientation=1.)
    q = dict(k_s=rng.uniform(1., 4.), k_g=rng.uniform(.6, 3.), R_fp=rng.uniform(.03, .2), J=rng.randint(0, 3),
             D=rng.uniform(.03, .055) if n < 3 else .05, phase=rng.uniform(0., 3.), R_ff=rng.uniform(.05, .4), pos=None)
    if rng.random() < .5:
        # pipes at other places than around the axis
        q['pos'] = (rng.uniform(-.01, .01), rng.uniform(-.01, .01)) if kind.startswith('coax') else scattered(rng, n)
    p = pipe(kind, b, reversible=not nonrev, **q)
    # heat capacities of the circuits; flow rates of C units
    if cpform == 'scalar':
        cp = 4000.
        cpv = np.full(nc, cp)
    else:
        cpv = np.array([rng.uniform(3000., 4200.) for _ in range(nc)])
        cp = cpv if sk == 'ind' else float(cpv[0])
    sign = np.where(np.array(rev), -1., 1.)
    m = sign * np.array(C) * UC / cpv
    dirs = [False] * nc if nonrev else list(rev)
    if sk != 'ind':
        m = float(m[0])
    sr = ratios(rng, nseg) if rng.random() < .7 else None
    k = dict(segment_ratios=sr)
    tb = rng.uniform(-5., 25.)
    Tb = np.full(nseg, tb) if uniform else np.array([rng.uniform(-5., 25.) for _ in range(nseg)])
    tin = np.array([rng.uniform(-10., 40.) for _ in range(nc)])
    if uniform:
        tin[:] = tin[0]
    ta = tin if nc > 1 else float(tin[0])
    tout = np.asarray(p.get_outlet_temperature(ta, Tb, m, cp, **k), dtype=float).ravel()
    z = np.array([0., H])
    prof = shaped(p.get_temperature(z, ta, Tb, m, cp, **k), (2, 2 * n))
    qs = shaped(p.get_borehole_heat_extraction_rate(ta, Tb, m, cp, **k), (nseg,))
    qf = np.asarray(p.get_fluid_heat_extraction_rate(ta, Tb, m, cp, **k), dtype=float).ravel()
    qt = np.asarray(p.get_total_heat_extraction_rate(ta, Tb, m, cp, **k), dtype=float).ravel()
    tin2 = np.asarray(p.get_inlet_temperature(qf if nc > 1 else float(qf[0]), Tb, m, cp, **k), dtype=float).ravel()
    want = np.array([rng.uniform(-3000., 3000.) for _ in range(nc)])
    tin3 = np.asarray(p.get_inlet_temperature(want if nc > 1 else float(want[0]), Tb, m, cp, **k), dtype=float).ravel()
    qf3 = np.asarray(p.get_fluid_heat_extraction_rate(tin3 if nc > 1 else float(tin3[0]), Tb, m, cp, **k), dtype=float).ravel()
    s = UT / UC
    rq, got, due = [], [], []
    if uniform and sk != 'ind':
        R = float(np.asarray(p.effective_borehole_thermal_resistance(m, cp)).ravel()[0])
        rq = ints([R * qf[0] / H], UT)
        old, err = attempt(lambda: float(gt.pipes.borehole_thermal_resistance(p, m, cp)))
        got.append([np.nan if err else old])
        due.append([R])
    if qt.size != 1:
        raise ValueError('total heat extraction rate is not one number')
    # the delta circuit may have negative resistances, with which no bound holds
    G = conductances(kind, b, q)
    ev.append({'ev': 'Pipe', 'pos': bool(np.all(G >= 0.)), 'kind': sk, 'n': n, 'rev': dirs, 'C': list(C), 'uniform': uniform,
               'tb': ints(tb, UT), 'tin': ints(tin, UT), 'tout': ints(tout, UT),
               'top': ints(prof[0], UT), 'bot': ints(prof[1], UT), 'qs': ints(qs, s), 'qf': ints(qf, s),
               'qt': ints(qt[0], s), 'tin2': ints(tin2, UT), 'qf2': ints(qf3, s), 'qwant': ints(want, s), 'rq': rq})
    forms(ev, p, n, nc, nseg, m, cp, sr, rng)
    # local balances
    edges = np.concatenate(([0.], np.cumsum((np.full(nseg, 1. / nseg) if sr is None else sr) * H)))
    mcp = np.repeat(np.abs(np.atleast_1d(m)) * cpv, 1)
    mp = np.array([mcp[i % n] if sk == 'ind' else mcp[0] / (n if sk == 'par' else 1) for i in range(2 * n)])
    g = G / mp[:, None]
    gm = np.abs(g).max()
    for _ in range(3):
        i = rng.randrange(nseg)
        L = min(.15 / gm, edges[i + 1] - edges[i])
        z0 = rng.uniform(edges[i], edges[i + 1] - L)
        T = shaped(p.get_temperature(np.array([z0, z0 + L / 2, z0 + L]), ta, Tb, m, cp, **k), (3, 2 * n))
        sT = scale_of(T - Tb[i], unit=25000)
        gs = int(1500 / (gm * L))
        # temperatures relative to the wall
        ev.append({'ev': 'Local', 'kind': sk, 'n': n, 'rev': dirs, 'tb': 0, 'T': ints(T - Tb[i], sT),
                   'g': ints(g * L, gs), 'gs': gs})
    # the same wall temperatures on finer segments
    Tb2, r2, owner = [], [], []
    base = np.diff(edges) / H
    for i in range(nseg):
        w = ratios(rng, rng.randint(1, 3))
        Tb2 += [Tb[i]] * len(w)
        r2 += list(base[i] * w)
        owner += [i] * len(w)
    Tb2, r2 = np.array(Tb2), np.array(r2)
    k2 = dict(segment_ratios=r2)
    o2 = np.asarray(p.get_outlet_temperature(ta, Tb2, m, cp, **k2), dtype=float).ravel()
    zz = np.sort([rng.uniform(0., H) for _ in range(4)])
    f1 = p.get_temperature(zz, ta, Tb, m, cp, **k)
    f2 = p.get_temperature(zz, ta, Tb2, m, cp, **k2)
    q2 = np.bincount(owner, weights=shaped(p.get_borehole_heat_extraction_rate(ta, Tb2, m, cp, **k2), (len(r2),)), minlength=nseg)
    ev.append({'ev': 'Refine', 'tout1': ints(tout, UT), 'tout2': ints(o2, UT), 'prof1': ints(f1, UT),
               'prof2': ints(f2, UT), 'qs1': ints(qs, s), 'qs2': ints(q2, s)})
    # scalar depth; wall temperature given as one number
    v, w = got, due
    v.append(p.get_temperature(float(zz[1]), ta, Tb, m, cp, **k))
    w.append(f1[1])
    # the heat of fluids of one temperature goes through the conductances to the wall
    v.append([p.local_borehole_thermal_resistance() * np.trace(G)])
    w.append([1.])
    if uniform:
        v += [p.get_outlet_temperature(ta, tb, m, cp), p.get_fluid_heat_extraction_rate(ta, tb, m, cp),
              p.get_borehole_heat_extraction_rate(ta, tb, m, cp)]
        w += [tout, qf, np.sum(qs)]
    if nonrev:
        # the absolute value of the flow rate is used
        a = np.abs(m)
        v += [p.get_outlet_temperature(ta, Tb, a, cp, **k), p.get_temperature(zz, ta, Tb, a, cp, **k),
              p.get_borehole_heat_extraction_rate(ta, Tb, a, cp, **k), p.get_fluid_heat_extraction_rate(ta, Tb, a, cp, **k)]
        w += [tout, f1, qs, qf]
    for x, y in zip(v, w):
        x, y = np.ravel(x), np.ravel(y)
        c = scale_of(x, y)
        ev.append({'ev': 'Same', 'v': ints(x, c), 'w': ints(y, c)})


FUNCS = {'case': case}
CFG = '''CONSTANTS NMax = %d
Cells = %d
Mut = "%s"
Gen = %s
SPECIFICATION Spec
INVARIANTS Conserved Direction
CONSTRAINT Emit
'''


def main(chk):
    f = chk.design('MCPipe', CFG % (3, 1, 'none', 'TRUE'), tag='BEH', label='Pipe, n <= 3')
    chk.design('MCPipe', CFG % (2, 2, 'none', 'FALSE') + 'PROPERTY Ended\n', label='Pipe ends', workers=3)
    for m, e in (('no-reverse', 'Direction'), ('order', 'Direction'), ('outlet', 'Conserved')):
        chk.design('MCPipe', CFG % (3, 1, m, 'FALSE'), expect={e}, label='Pipe with ' + m)
    conf = sorted({(c['kind'], c['n'], tuple(c['rev'])) for c in f.result().strings('BEH')})
    rng = chk.rng
    ts = []
    reps = 12 if chk.quick else 150
    for kind, n, rev in conf:
        names = {'par': 'multi-par-%d', 'ser': 'multi-ser-%d', 'ind': 'indep-%d'}
        kinds = [names[kind] % n]
        if n == 1:
            kinds = ['single', 'coax-in', 'coax-out'] if kind == 'ser' else ['indep-1'] if kind == 'ind' else ['single']
        for k in kinds:
            for r in range(reps):
                nc = n if kind == 'ind' else 1
                ts.append((f'{k}-{"".join("-+"[not x] for x in rev)}-{r}', 'case',
                           dict(kind=k, rev=list(rev), C=[rng.randint(1, 12) for _ in range(nc)], seed=rng.getrandbits(30),
                                nseg=rng.choice([1, 1, 2, 3, 4, 7, 12]), uniform=r % 3 == 0, nonrev=r % 4 == 3,
                                cpform='array' if r % 2 else 'scalar')))
    ts = list({t[0]: t for t in ts}.values())
    eps = chk.run(FUNCS, ts)
    chk.bounds = {'configurations': f'all {len(conf)} of kind, up to 3 U-tubes and directions per circuit; 1 to 12 segments',
                  'cases': len(ts)}
    chk.validate('TracePipe', eps)
