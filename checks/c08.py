"""C08: acceptance of pipe geometries, symmetries of the resistances."""
import math
import random
import numpy as np
from tv import load_repo, ints, attempt, scale_of, shaped
gt = load_repo()
P = gt.pipes
U = 1. / 1024.      # m, unit of length of the specification
NANV = 120000000
VAL = {NANV: math.nan}


def construct(g):
    """Pipe described by a geometry of Geometry.tla."""
    r = g['rb']
    b = gt.boreholes.Borehole(100., 4., r * U, 0., 0.)
    v = lambda x, s=1.: math.nan if x == NANV else x * s
    pos = [(x * U, y * U) for x, y in g['pos']]
    ks, kg, Rfp, Rff = v(g['ks'], .5), v(g['kg'], .5), v(g['Rfp'], .05), v(g['Rff'], .05)
    ri, ro = [v(x, U) for x in g['ri']], [v(x, U) for x in g['ro']]
    if g['kind'] == 'coax':
        return P.Coaxial(pos[0] if g.get('tuple') else pos, np.array(ri), np.array(ro), b, ks, kg, Rff, Rfp, g['J'])
    a = (pos, ri[0], ro[0], b, ks, kg, Rfp)
    n = len(pos) // 2
    c = g['cls']
    if c == 'single':
        return P.SingleUTube(*a, J=g['J'])
    if c == 'indep':
        return P.IndependentMultipleUTube(*a, n, J=g['J'])
    return P.MultipleUTube(*a, n, config=c, J=g['J'])


def build(ev, geos):
    for g in geos:
        p, err = attempt(construct, g)
        # a geometry that the code accepts has finite resistances
        ok = not err
        ev.append({'ev': 'Build', 'g': g, 'ok': ok, 'err': err})


def lattice(ev, places, cls, ri, ro, rb, f):
    for pos in places:
        g = dict(kind='u', cls=cls, pos=[[f * x, f * y] for x, y in pos], ri=[ri], ro=[ro], rb=rb, ks=4, kg=2, Rfp=2,
                 Rff=0, J=0)
        p, err = attempt(construct, g)
        ev.append({'ev': 'Build', 'g': g, 'ok': not err, 'err': err})


def place(rng, n, ro, rb):
    """n pipes at random in the borehole, apart."""
    while True:
        pos = []
        for _ in range(400):
            a, r = rng.uniform(0., 2 * math.pi), (rb - ro) * .97 * math.sqrt(rng.random())
            p = (r * math.cos(a), r * math.sin(a))
            if all(math.dist(p, q) > 2.15 * ro for q in pos):
                pos.append(p)
            if len(pos) == n:
                return pos


def turn(pos, a, mirror=False):
    c, s = math.cos(a), math.sin(a)
    return [(c * x - s * (-y if mirror else y), s * x + c * (-y if mirror else y)) for x, y in pos]


def matrices(ev, seed, n, J, vec):
    """Resistances of n pipes, and of the same pipes transformed."""
    rng = random.Random(seed)
    rb = rng.uniform(.06, .1)
    ro = rng.uniform(.08, .2) * rb
    pos = place(rng, n, ro, rb)
    if rng.random() < .15:
        pos[0] = (0., 0.) if all(math.hypot(*p) > 2.1 * ro for p in pos[1:]) else pos[0]
    ks, kg = rng.uniform(.5, 4.), rng.uniform(.5, 4.)
    r = np.array([ro * rng.uniform(.6, 1.) for _ in range(n)]) if vec else np.full(n, ro)
    Rf = np.array([rng.uniform(.02, .3) for _ in range(n)]) if vec else np.full(n, rng.uniform(.02, .3))

    def tr(pos, r, Rf, f=1.):
        a = (r * f, rb * f, ks, kg, Rf) if vec else (float(r[0]) * f, rb * f, ks, kg, float(Rf[0]))
        R, Rd = P.thermal_resistances(pos, *a, J=J)
        return shaped(R, (n, n)), 1. / shaped(Rd, (n, n))
    R, K = tr(pos, r, Rf)
    s = scale_of(R)
    tol = 5 if J == 0 else 1500
    sr, sk = scale_of(R, unit=10**4), scale_of(K, unit=10**4)
    ev.append({'ev': 'Matrix', 'R': ints(R, s), 'K': ints(K, sk), 'tol': tol, 'Rs': ints(R, sr), 'unit': int(round(sr * sk))})
    moves = [(list(range(n)), turn(pos, rng.uniform(0., 6.)), 1.), (list(range(n)), turn(pos, rng.uniform(0., 6.), True), 1.),
             (list(range(n)), pos, rng.uniform(.5, 2.))]
    q = list(range(n))
    rng.shuffle(q)
    moves.append((q, [pos[q.index(i)] for i in range(n)], 1.))
    for p, pos2, f in moves:
        inv = [p.index(i) for i in range(n)]
        R2, K2 = tr([(x * f, y * f) for x, y in pos2], r[inv], Rf[inv], f)
        ev.append({'ev': 'Moved', 'R': ints(R, s), 'S': ints(R2, s), 'p': [x + 1 for x in p], 'tol': tol, 'v': [], 'w': []})
    m = rng.randrange(n)
    Q = np.zeros(n)
    Q[m] = 1.
    if J >= 0:
        T = P.multipole(pos, r, rb, ks, kg, Rf, 0., Q, J)[0]
        ev.append({'ev': 'Column', 'v': ints(R[:, m], s), 'w': ints(T, s), 'tol': 5})
        # linear in heat and wall temperature; inside the pipes it is the fluid
        q1 = np.array([rng.uniform(-1., 1.) for _ in range(n)])
        T1 = P.multipole(pos, r, rb, ks, kg, Rf, 3., q1, J)[0]
        w = 3. + R @ q1
        c = scale_of(w, T1)
        ev.append({'ev': 'Column', 'v': ints(T1, c), 'w': ints(w, c), 'tol': tol})
        x = np.array([p[0] for p in pos])
        y = np.array([p[1] for p in pos])
        T2 = P.multipole(pos, r, rb, ks, kg, Rf, 3., q1, J, x_T=x + .5 * r, y_T=y)[1]
        ev.append({'ev': 'Column', 'v': ints(T2, c), 'w': ints(T1, c), 'tol': 5})
        # continuous at the borehole wall, with the given mean
        a = np.arange(180) * 2 * np.pi / 180
        Ti, To = (P.multipole(pos, r, rb, ks, kg, Rf, 3., q1, J, x_T=rb * k * np.cos(a), y_T=rb * k * np.sin(a))[1]
                  for k in (1. - 1e-9, 1. + 1e-9))
        ev.append({'ev': 'Column', 'v': ints(Ti[::15], c), 'w': ints(To[::15], c), 'tol': 20})
        # the quadrature of the mean converges as (r_pipe / r_b)**180
        if max(math.hypot(*p) for p in pos) < .9 * rb:
            ev.append({'ev': 'Column', 'v': ints([np.mean(Ti)], c), 'w': ints([3.], c), 'tol': 50})


def objects(ev, seed, cls, n, J):
    """Results of a pipe, and of the same pipe transformed."""
    rng = random.Random(seed)
    rb = .075
    ro = .0134 if n < 4 else .01
    pos = place(rng, 2 * n, ro, rb)
    k = dict(ks=rng.uniform(.5, 4.), kg=rng.uniform(.5, 3.), Rf=rng.uniform(.03, .2))

    def res(pos, f=1., perm=None):
        b = gt.boreholes.Borehole(100., 4., rb * f, 0., 0.)
        a = (pos, .8 * ro * f, ro * f, b, k['ks'], k['kg'], k['Rf'])
        nin = n if cls == 'indep' else 1
        p = P.SingleUTube(*a, J=J) if cls == 'single' else P.IndependentMultipleUTube(*a, n, J=J) if cls == 'indep' \
            else P.MultipleUTube(*a, n, config=cls, J=J)
        m, tin = (.3, 10.) if nin == 1 else (np.linspace(.2, .4, n), np.linspace(8., 12., n))
        inv = [perm.index(i) for i in range(n)] if perm else list(range(n))
        if nin > 1:
            m, tin = m[inv], tin[inv]
        Tb = np.array([2., 4., 3.])
        out = np.ravel(p.get_outlet_temperature(tin, Tb, m, 4000.))
        if nin > 1 and perm:
            out = np.array([out[perm[i]] for i in range(n)])
        T = p.get_temperature(np.array([30., 70.]), tin, Tb, m, 4000.)
        if perm:
            T = T[:, [perm[i] for i in range(n)] + [n + perm[i] for i in range(n)]]
        return np.concatenate((out, p.get_borehole_heat_extraction_rate(tin, Tb, m, 4000.) / 1000., T.ravel()))
    v = res(pos)
    s = scale_of(v)
    moves = [(turn(pos, rng.uniform(0., 6.)), 1., None), (turn(pos, 1., True), 1., None), (pos, 1.7, None)]
    if cls in ('parallel', 'indep'):
        q = list(range(n))
        rng.shuffle(q)
        moves.append(([pos[q.index(i)] for i in range(n)] + [pos[n + q.index(i)] for i in range(n)], 1., q))
    for pos2, f, perm in moves:
        w = res([(x * f, y * f) for x, y in pos2], f, perm)
        ev.append({'ev': 'Moved', 'R': [], 'S': [], 'p': [], 'tol': 0, 'v': ints(v, s), 'w': ints(w, s)})


FUNCS = {'build': build, 'lattice': lattice, 'matrices': matrices, 'objects': objects}
CFG = '''CONSTANTS W = %d
NP = %d
RO = %d
RB = %d
Mut = "%s"
Gen = %s
SPECIFICATION Spec
INVARIANTS %s
CONSTRAINT Emit
'''


def ugeo(rng, n, cls, pos=None, **k):
    g = dict(kind='u', cls=cls, pos=pos or [[0, 0]] * 2 * n, ri=[10], ro=[13], rb=78, ks=4, kg=2, Rfp=2, Rff=0, J=rng.randint(0, 2))
    g.update(k)
    return g


TRIPLES = [(65, 0), (39, 52), (52, 39), (25, 60), (16, 63), (33, 56), (63, 16)]


def cases(rng, count):
    out = []
    valid = {1: [[52, 39], [-52, -39]], 2: [[52, 0], [0, 52], [-52, 0], [0, -52]],
             3: [[65, 0], [25, 60], [-39, 52], [-65, 0], [-25, -60], [39, -52]]}
    classes = [('single', 1), ('parallel', 1), ('series', 2), ('parallel', 2), ('indep', 2), ('series', 3), ('indep', 3)]
    coax = dict(kind='coax', pos=[[0, 0]], ri=[20, 50], ro=[25, 56], rb=78, ks=4, kg=2, Rfp=2, Rff=2, J=1)
    bad = {'ks': [0, -1, NANV, 1], 'kg': [0, -2, NANV, 1], 'Rfp': [0, -1, NANV, 1], 'J': [-1, 0, 3], 'Rff': [0, -1, NANV, 1]}
    for cls, n in classes:
        for f, vs in bad.items():
            for v in vs:
                out.append(ugeo(rng, n, cls, [list(x) for x in valid[n]], **{f: v if (f, v) != ('Rff', NANV) else 0}))
        for ri in (0, -1, 12, 13, 14, 1):
            out.append(ugeo(rng, n, cls, [list(x) for x in valid[n]], ri=[ri]))
    for f, vs in bad.items():
        for v in vs:
            out += [dict(coax, **{f: v}), dict(coax, ri=[50, 20], ro=[56, 25], **{f: v})]
    for ri, ro, rb in (([20, 50], [25, 56], 56), ([20, 50], [25, 56], 55), ([20, 50], [25, 57], 56), ([20, 25], [25, 56], 78),
                       ([20, 26], [25, 56], 78), ([20, 24], [25, 56], 78), ([25, 50], [25, 56], 78), ([26, 50], [25, 56], 78),
                       ([0, 50], [25, 56], 78), ([-1, 50], [25, 56], 78), ([20, 56], [25, 56], 78), ([20, 57], [25, 56], 78),
                       ([20, 0], [25, 56], 78), ([1, 3], [2, 4], 78)):
        for k in (1, -1):
            out.append(dict(coax, ri=ri[::k], ro=ro[::k], rb=rb))
    for p in ([22, 0], [23, 0], [0, -22], [-15, 16], [-16, 16], [13, 17], [14, 17]):
        out += [dict(coax, pos=[p], tuple=rng.random() < .5), dict(coax, pos=[p], ri=[50, 20], ro=[56, 25])]
    # a single pipe on or next to the boundaries
    for _ in range(count):
        cls, n = rng.choice(classes[2:])
        pos = [list(x) for x in valid[n]]
        i = rng.randrange(2 * n)
        r = rng.random()
        x, y = rng.choice(TRIPLES)
        x, y = rng.choice([-1, 1]) * x, rng.choice([-1, 1]) * y
        if r < .4:
            pos[i] = [x + rng.choice([0, 0, 1, -1]), y]
        elif r < .8:
            j = rng.choice([k for k in range(2 * n) if k != i])
            dx, dy = rng.choice([(26, 0), (10, 24), (24, 10), (25, 0), (10, 23), (27, 0), (18, 19), (0, 26)])
            if rng.random() < .7:
                q = [[9 * a // 13, 9 * b // 13] for a, b in pos]
                pos = q if rng.random() < .2 else pos
            pos[i] = [pos[j][0] + rng.choice([-1, 1]) * dx, pos[j][1] + rng.choice([-1, 1]) * dy]
        else:
            pos[i] = [rng.randint(-70, 70), rng.randint(-70, 70)]
        out.append(ugeo(rng, n, cls, pos))
    return out


def main(chk):
    rng = chk.rng
    inv = 'Agree Physical Symmetric'
    f = chk.design('MCGeometry', CFG % (5, 2, 1, 6, 'none', 'TRUE', 'Agree'), tag='BEH', label='Geometry, 2 pipes')
    if chk.quick:
        chk.design('MCGeometry', CFG % (3, 2, 1, 4, 'none', 'FALSE', inv), label='Geometry, 2 pipes, small', workers=4)
    else:
        chk.design('MCGeometry', CFG % (5, 2, 1, 6, 'none', 'FALSE', inv), label='Geometry, 2 pipes', workers=4)
        chk.design('MCGeometry', CFG % (2, 3, 1, 3, 'none', 'FALSE', inv), label='Geometry, 3 pipes', workers=4)
    for m, k in (('inlets', (3, 2, 1, 4)), ('centers', (3, 2, 1, 4)), ('strict', (3, 2, 1, 4)), ('box', (3, 2, 1, 4)),
                 ('touch', (3, 2, 1, 4)), ('neighbours', (2, 3, 1, 3))):
        chk.design('MCGeometry', CFG % (*k, m, 'FALSE', 'Agree'), expect={'Agree'}, label='Geometry with ' + m)
    places = f.result().strings('BEH')
    ts = []
    for i in range(0, len(places), 400):
        cls = ['single', 'parallel', 'indep', 'series'][(i // 400) % 4]
        ts.append((f'lattice-{i}', 'lattice', dict(places=places[i:i + 400], cls=cls, ri=10, ro=13, rb=78, f=13)))
    geos = cases(rng, 800 if chk.quick else 8000)
    for i in range(0, len(geos), 60):
        ts.append((f'build-{i}', 'build', dict(geos=geos[i:i + 60])))
    for i in range(150 if chk.quick else 3000):
        ts.append((f'matrix-{i}', 'matrices', dict(seed=rng.getrandbits(30), n=rng.randint(1, 6), J=i % 4, vec=i % 3 == 0)))
    for i in range(60 if chk.quick else 1000):
        cls, n = rng.choice([('single', 1), ('parallel', 2), ('series', 2), ('indep', 2), ('parallel', 3), ('series', 3), ('indep', 3)])
        ts.append((f'object-{i}', 'objects', dict(seed=rng.getrandbits(30), cls=cls, n=n, J=rng.randint(0, 3))))
    eps = chk.run(FUNCS, ts)
    chk.bounds = {'placements': f'all {len(places)} placements of two pipes on an 11 x 11 lattice; {len(geos)} boundary cases',
                  'resistances': '1 to 6 pipes, 0 to 3 multipoles'}
    chk.validate('TraceGeometry', eps)
