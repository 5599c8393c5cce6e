"""C03: acceptance of connectivity vectors, topology and routing of networks;
C04 shares the driver (see c04.py)."""
import itertools
import numpy as np
import random
from tv import load_repo, ints, attempt, shaped
from models import pipe, PIPES, ratios, anywhere
gt = load_repo()
UC = 200.       # W/K of one unit of heat capacity rate
UT = 20000.     # scaled temperature per K


def line(n, H=100.):
    return [gt.boreholes.Borehole(H, 4., 0.075, 6. * i, 0.) for i in range(n)]


def build(ev, vectors, pipes=None):
    """Construction of networks for connectivity vectors."""
    n = max(len(v) for v in vectors)
    b = line(n)
    p = [pipe('single', x) for x in b]
    for v in vectors:
        net, err = attempt(gt.networks.Network, b[:len(v)], p[:len(v)], bore_connectivity=list(v))
        e = {'ev': 'Build', 'c': list(v), 'ok': not err, 'err': err, 'nin': 0, 'nout': 0}
        if not err:
            e['nin'], e['nout'] = int(net.nInlets), int(net.nOutlets)
        ev.append(e)


def length(ev, c, n):
    b = line(n)
    net, err = attempt(gt.networks.Network, b, [pipe('single', x) for x in b], bore_connectivity=list(c))
    ev.append({'ev': 'Length', 'c': list(c), 'n': n, 'ok': not err})


def network(ev, c, C, form, rev, kinds, seed, nseg, ratio, cpform='scalar', uniform=False, nonrev=False):
    """Evaluate all queries of one network.  form: 'total' or 'circuits'."""
    rng = random.Random(seed)
    n = len(c)
    nin = list(c).count(-1)
    b = [gt.boreholes.Borehole(rng.choice([80., 100., 137.5]), rng.uniform(1., 5.), 0.075, 6. * i, 0.)
         for i in range(n)]
    ps = [pipe(k, x, k_g=rng.uniform(.8, 2.), R_fp=rng.uniform(.05, .2), reversible=not nonrev,
               D=rng.uniform(.04, .055) if 'multi' not in k else 0.05, k_s=rng.uniform(1., 3.), J=rng.randint(0, 3),
               pos=anywhere(rng, k))
          for k, x in zip(kinds, b)]
    net = gt.networks.Network(b, ps, bore_connectivity=list(c))
    cp = 4000.
    m = np.array(C, dtype=float) * UC / cp
    if form == 'total':
        m = float(m.sum())
    m = -m if rev else m
    if cpform != 'scalar':
        cp = np.full(nin, cp)
    segs = [nseg] * n if isinstance(nseg, int) else nseg
    sr = None
    if ratio == 'list':
        sr = [ratios(rng, s) for s in segs]
    elif ratio == 'array':
        sr = ratios(rng, segs[0])
    nsegarg = nseg if isinstance(nseg, int) else list(nseg)
    Tb = 10. if uniform else np.array([rng.uniform(-5., 25.) for _ in range(sum(segs))])
    tin = rng.uniform(-10., 40.)
    a = (m, cp, nsegarg)
    k = dict(segment_ratios=sr)
    ti = shaped(net.get_inlet_temperature(tin, Tb, *a, **k), (n,))
    to = shaped(net.get_outlet_temperature(tin, Tb, *a, **k), (n,))
    tn = np.asarray(net.get_network_outlet_temperature(tin, Tb, *a, **k), dtype=float)
    qb = shaped(net.get_borehole_heat_extraction_rate(tin, Tb, *a, **k), (sum(segs),))
    qf = shaped(net.get_fluid_heat_extraction_rate(tin, Tb, *a, **k), (n,))
    qn = np.asarray(net.get_network_heat_extraction_rate(tin, Tb, *a, **k), dtype=float)
    if tn.size != 1 or qn.size != 1:
        raise ValueError('network result is not one number')
    qt = float(qn.ravel()[0])
    tin2 = np.asarray(net.get_network_inlet_temperature(qt, Tb, *a, **k), dtype=float).ravel()
    qt2 = 3000. * rng.uniform(-1., 1.)
    tin3 = np.asarray(net.get_network_inlet_temperature(qt2, Tb, *a, **k), dtype=float).ravel()
    qn3 = np.asarray(net.get_network_heat_extraction_rate(float(tin3[0]), Tb, *a, **k), dtype=float).ravel()
    # numbers for numbers, arrays for arrays
    for form, x in (('number', rng.choice([3., 5])), ('array', np.array([3.]))):
        sh = {}
        for q in ('get_network_inlet_temperature', 'get_network_outlet_temperature', 'get_network_heat_extraction_rate',
                  'get_inlet_temperature', 'get_outlet_temperature', 'get_borehole_heat_extraction_rate',
                  'get_fluid_heat_extraction_rate'):
            r, err = attempt(getattr(net, q), x, Tb, *a, **k)
            sh[q[4:]] = [-1] if err else [int(y) for y in np.shape(r)]
        ev.append({'ev': 'Form', 'form': form, 'n': n, 'nseg': sum(segs), 'shape': sh})
    # Effective resistance: uniform wall temperature, one segment per borehole
    tb1 = rng.uniform(0., 20.)
    R = gt.networks.network_thermal_resistance(net, m, cp)
    tn1 = float(np.ravel(net.get_network_outlet_temperature(tin, tb1, m, cp, 1))[0])
    qn1 = float(np.ravel(net.get_network_heat_extraction_rate(tin, tb1, m, cp, 1))[0])
    Rq = float(np.ravel(R)[0]) * -qn1 / sum(x.H for x in b)
    o = np.cumsum([0] + segs)
    s = UT / UC
    ev.append({'ev': 'Net', 'c': list(c), 'C': list(C), 'rev': rev,
               'tin': ints(tin, UT), 'ti': ints(ti, UT), 'to': ints(to, UT), 'tn': ints(tn.ravel()[0], UT),
               'qs': [ints(qb[o[i]:o[i + 1]], s) for i in range(n)], 'qf': ints(qf, s), 'qn': ints(qt, s),
               'tin2': ints(tin2[0], UT), 'qn2': ints(qn3[0], s), 'qwant': ints(qt2, s),
               'tn1': ints(tn1, UT), 'tb1': ints(tb1, UT), 'rq': ints(Rq, UT)})


def bad_input(ev, what):
    b = line(3)
    net = gt.networks.Network(b, [pipe('single', x) for x in b], bore_connectivity=[-1, 0, -1])
    m, cp, ns = np.array([.2, .3]), 4000., 2
    if what == 'length':
        m = np.array([.2, .3, .4])
    elif what == 'sign':
        m = np.array([.2, -.3])
    elif what == 'cp-length':
        cp = np.full(3, 4000.)
    elif what == 'cp-values':
        cp = np.array([4000., 4100.])
    elif what == 'segments':
        ns = [2, 3]
    for f in ('get_network_outlet_temperature', 'get_network_heat_extraction_rate', 'get_inlet_temperature'):
        r, err = attempt(getattr(net, f), 5., 10., m, cp, ns)
        ev.append({'ev': 'Raise', 'what': what, 'raised': bool(err)})


FUNCS = {'build': build, 'length': length, 'network': network, 'bad_input': bad_input}
CFG = '''CONSTANTS N = %d
Mut = "%s"
Gen = %s
SPECIFICATION Spec
INVARIANTS InvVerdict InvBalance
CONSTRAINT Emit
'''


def designs(chk):
    f = chk.design('MCNetwork', CFG % (4, 'none', 'TRUE'), tag='BEH', label='Network, n <= 4')
    chk.design('MCNetwork', CFG % (3, 'none', 'FALSE') + 'PROPERTY Ended\n', label='Network ends, n <= 3')
    if not chk.quick:
        chk.design('MCNetwork', CFG % (5, 'none', 'FALSE'), label='Network, n <= 5', workers=4)
    for mut in ('fork', 'short', 'loop', 'ends'):
        n = 3
        chk.design('MCNetwork', CFG % (n, mut, 'FALSE'), expect={'InvVerdict'}, label='Network with ' + mut)
    return f


def variants(rng, c, balance):
    n, nin = len(c), list(c).count(-1)
    out = []
    for form in ('total', 'circuits'):
        for rev in (False, True):
            if form == 'total':
                x = rng.randint(1, 8)
                C = [x] * nin
            else:
                C = [rng.randint(1, 12) for _ in range(nin)]
            r = rng.random()
            nseg = rng.randint(1, 4) if r < .6 else [rng.randint(1, 4) for _ in range(n)]
            ratio = None
            if rng.random() < .5:
                ratio = 'list' if isinstance(nseg, list) or rng.random() < .5 else 'array'
            out.append(dict(c=c, C=C, form=form, rev=rev, seed=rng.getrandbits(30), nseg=nseg, ratio=ratio,
                            kinds=[rng.choice(PIPES) for _ in range(n)],
                            cpform='scalar' if rng.random() < .7 else 'array',
                            uniform=rng.random() < .2, nonrev=rng.random() < .2))
    return out


def main(chk):
    accepted = sorted(designs(chk).result().strings('BEH'), key=lambda c: (len(c), c))
    rng = chk.rng
    ts = []
    # every vector
    nmax = 4 if chk.quick else 5
    for n in range(1, nmax + 1):
        allv = list(itertools.product(range(-2 if n > 2 else -4, n + 1), repeat=n))
        for i in range(0, len(allv), 300):
            ts.append((f'build-{n}-{i}', 'build', dict(vectors=allv[i:i + 300])))
    big = []
    for _ in range(600 if chk.quick else 6000):
        n = rng.randint(5, 9)
        v = chain_vector(rng, n)
        if rng.random() < .6:
            v[rng.randrange(n)] = rng.randint(-2, n)
        big.append(v)
    for i in range(0, len(big), 100):
        ts.append((f'big-{i}', 'build', dict(vectors=big[i:i + 100])))
    for c, n in (([-1], 2), ([-1, 0, 1], 2), ([-1, -1], 3), ([-1, 0], 1)):
        ts.append((f'length-{len(c)}-{n}', 'length', dict(c=c, n=n)))
    for w in ('length', 'sign', 'cp-length', 'cp-values', 'segments'):
        ts.append((f'bad-{w}', 'bad_input', dict(what=w)))
    # routing in all accepted networks, with single U-tubes of distinct wall temperatures
    for i, c in enumerate(accepted + [chain_vector(rng, rng.randint(5, 7)) for _ in range(20 if chk.quick else 300)]):
        for j, v in enumerate(variants(rng, c, False)):
            v.update(kinds=['single'] * len(c), uniform=False)
            ts.append((f'route-{i}-{j}', 'network', v))
    eps = chk.run(FUNCS, ts)
    chk.bounds = {'vectors': f'all vectors with entries -2..n, n <= {nmax}; random vectors up to n = 9',
                  'routing': 'all accepted vectors n <= 4, both directions, total and per-circuit flow'}
    chk.validate('TraceNetwork', eps)


def chain_vector(rng, n):
    p = list(range(n))
    rng.shuffle(p)
    v = [-1] * n
    for a, b in zip(p, p[1:]):
        if rng.random() < .65:
            v[b] = a
    return v
