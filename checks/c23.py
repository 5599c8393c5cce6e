"""C23: figures of solutions, drawn in sequences of requests and evaluations."""
import math
import random
import re
import numpy as np
from matplotlib.colors import to_hex
from tv import ints, attempt, shaped
import fields as fl
import c13
plt = fl.plt
U = 3 * 10**5
# shapes of fields of boreholes alike by symmetry, by number of groups
SHAPES = {1: [(1, 1), (1, 2), (2, 2)], 2: [(1, 3), (1, 4), (2, 3), (2, 4)], 3: [(1, 5), (1, 6), (3, 3), (2, 5)], 4: [(1, 7), (1, 8), (3, 4)]}


def field(rng, nb, nf, bc, method, tilted):
    cells = rng.sample([(x, y) for x in range(3) for y in range(3)], nb)
    f = [{'x': x, 'y': y, 'd': rng.randint(1, 2), 'a': rng.randint(-1, 3)} for x, y in cells]
    c = [-1] * nb
    for i in range(1, nb):
        if rng.random() < .4:
            free = [k for k in range(i) if k not in c]
            c[i] = rng.choice(free) if free else -1
    F = c13.configure(rng, {'f': f, 'c': c}, bc, method, tilted)
    F['opts'].pop('approximate_FLS', None)
    if method == 'equivalent':
        n1, n2 = rng.choice(SHAPES[nb])
        d, (x0, y0) = rng.uniform(4., 9.), (rng.uniform(-20., 20.), rng.uniform(-20., 20.))
        b = F['b'][0]
        F['b'] = [b[:3] + [x0 + i * d, y0 + j * d] for i in range(n1) for j in range(n2)]
        F['opts']['kClusters'] = 5
        F['opts']['disTol'] = 1e-6
        if bc == 'MIFT':
            F['c'] = [-1] * len(F['b'])
            F['kinds'] = F['kinds'][:1] * len(F['b'])
            F['m'] = rng.uniform(.1, .5) * len(F['b'])
    pool = None
    if bc == 'MIFT' and nf:
        nc = F['c'].count(-1)
        F.pop('m', None), F.pop('mb', None)
        base = rng.sample([.07, .1, .2, .3, .45, .6], nf)
        if rng.random() < .5:
            pool = [x * nc for x in base]
        else:
            pool = [[x * (rng.choice([1., .5, 1.6]) if method != 'equivalent' else 1.) for _ in range(nc)] for x in base]
        F['m' if isinstance(pool[0], float) else 'mb'] = pool[0]
    return F, pool


def bottom(b):
    t, o = (b[5], b[6]) if len(b) > 5 else (0., 0.)
    return [b[3] + b[0] * math.sin(t) * math.cos(o), b[4] + b[0] * math.sin(t) * math.sin(o)]


def mm(p):
    return ints(p, 1e4, cap=10**9)


def figures(ev, seed, beh, bc, method, tilted):
    rng = random.Random(seed)
    nb, nf = beh[0]['s']['nb'], beh[0]['s']['nf'] if bc == 'MIFT' else 0
    F, pool = field(rng, nb, nf, bc, method, tilted)
    if tilted:
        F['opts']['mQuad'] = 51
        F['n'], F['ratios'] = (min(F['n'], 2) if isinstance(F['n'], int) else [min(x, 2) for x in F['n']]), None
    rs = fl.seg_ratios(F)
    bores = [fl.models.borehole(b) for b in F['b']]
    k = {}
    obj = bores
    if bc == 'MIFT':
        obj = fl.network(F, bores)
        k['cp_f'] = F['cp']
        name = 'm' if 'm' in F else 'mb'
        v = pool if pool else F[name]
        k['m_flow_network' if name == 'm' else 'm_flow_borehole'] = v if isinstance(v, float) else np.array(v)
    g, t, S = None, None, {}
    members = None
    flows = [list(np.atleast_1d(x)) for x in pool] if pool else []
    s0 = U / max([max(map(abs, x)) for x in flows] + [1e-9])

    def solve(nt):
        nonlocal g, t, members, S
        t = np.array(sorted(c13.times(rng, F, nt)[-nt:]))
        if nt > 1 and rng.random() < .3:
            i = rng.randrange(nt - 1)
            t[i + 1] = t[i]
        if g is None:
            g = fl.gt.gfunction.gFunction(obj, F['alpha'], time=t.copy(), method=method, boundary_condition=bc, options=fl.options(F), **k)
            if method == 'equivalent':
                grp = fl.groups(F, g)
                members = [[i for i in range(len(grp)) if grp[i] == j] for j in range(1, max(grp) + 1)]
            else:
                members = [[i] for i in range(len(F['b']))]
            ev.append({'ev': 'Field', 'nb': len(members), 'nf': nf, 'flows': [ints(x, s0) for x in flows],
                       'heads': [[mm(F['b'][i][3:5]) for i in m] for m in members],
                       'ends': [[mm(bottom(F['b'][i])) for i in m] for m in members]})
            if len(members) != nb:
                raise ValueError('groups of boreholes')
        else:
            g.evaluate_g_function(t.copy())
        # distinct times, and the place of each
        u, at = np.unique(t, return_inverse=True)
        Ft = {**F, 't': list(u)}
        sols = [fl.on_times(Ft, fl.reference(Ft, None if not pool else pool[n] if isinstance(pool[n], float) else np.array(pool[n])))
                for n in range(max(1, nf))]
        G = shaped(g.gFunc, (nf, nf, nt) if nf else (nt,)).reshape(max(1, nf), max(1, nf), nt)
        sc = U / max(float(np.abs(x[2]).max()) for x in sols)
        sg = U / max(float(np.abs(G).max()), 1e-9)
        sq = U / max(float(np.abs(x[1]).max()) for x in sols)
        lt = np.log(t / (np.mean([b[0] for b in F['b']]) ** 2 / (9. * F['alpha'])))
        S = {'q': sq, 't': sc, 'g': sg, 'lt': 1e4}
        e = {'ev': 'Solved', 'nt': nt, 'lt': ints(lt, 1e4), 'g': [[ints(y, sg) for y in x] for x in G], 'q': [], 't': [], 'sq': [], 'st': [],
             'zq': [], 'zt': [], 'tol': 80 if tilted else 15}
        own = sols[0][4]
        rep = [m[0] for m in members]
        for _, Q, T, H, own in sols:
            e['q'].append([ints(fl.means(Q, H, own)[i][at], sq) for i in rep])
            e['t'].append([ints(fl.means(T, H, own)[i][at], sc) for i in rep])
            two = lambda x: np.repeat(x, 2) if len(x) == 1 else x
            e['sq'].append([[ints(two(Q[own == i, p] if bc != 'UHTR' else Q[own == i, p][:1]), sq) for p in at] for i in rep])
            e['st'].append([[ints(two(T[own == i, p] if bc != 'UBWT' else T[own == i, p][:1]), sc) for p in at] for i in rep])
        for i in rep:
            H, D = F['b'][i][:2]
            n = len(rs[i])
            mid = D + H * (np.cumsum(rs[i]) - .5 * rs[i])
            ends = np.array([D, D + H])
            e['zq'].append(ints(ends if n == 1 or bc == 'UHTR' else mid, 100))
            e['zt'].append(ints(ends if n == 1 or bc == 'UBWT' else mid, 100))
        ev.append(e)

    def some(x):
        """The same indices, in another sequence."""
        y = [i - 1 for i in x]
        return tuple(y) if rng.random() < .4 else y

    def draw(r):
        before = (g.gFunc.copy(), np.array(g.time, copy=True))
        a = {}
        if not r['all'] or rng.random() < .3:
            a['iBoreholes'] = None if r['all'] else some(r['chosen'])
        if not r['tilt'] or rng.random() < .5:
            a['showTilt'] = r['tilt']
        if nf and not r['every']:
            a['which'] = some(r['which'])
        w = 0
        if 'profiles' in r['kind'] and r['at']:
            p = r['at'] - 1
            x = t[p]
            if p + 1 < len(t) and rng.random() < .5:
                w = rng.choice([20, 50, 75])
                x = t[p] + (t[p + 1] - t[p]) * w / 100
            a['time'] = rng.choice([float, np.float64])(x)
        held = {k: list(v) for k, v in a.items() if isinstance(v, (list, tuple))}
        plt.close('all')
        call = {'rates': g.visualize_heat_extraction_rates, 'temperatures': g.visualize_temperatures,
                'rate profiles': g.visualize_heat_extraction_rate_profiles, 'temperature profiles': g.visualize_temperature_profiles}[r['kind']]
        fig, err = attempt(call, **a)
        figs = [plt.figure(i) for i in plt.get_fignums()]
        kept = np.array_equal(before[0], g.gFunc) and np.array_equal(before[1], g.time) and all(list(a[k]) == v for k, v in held.items())
        sx, sy = (S['lt'], S['q' if r['kind'] == 'rates' else 't']) if 'profiles' not in r['kind'] else (S['q' if r['kind'] == 'rate profiles' else 't'], 100)
        ev.append({'ev': 'Drew', 'r': r, 'w': w, 'err': err, 'figs': [read(x, sx, sy) for x in figs], 'last': bool(figs and fig is figs[-1]), 'kept': bool(kept)})
        plt.close('all')

    def read(fig, sx, sy):
        a1, a2 = fig.axes[:2]
        names = []

        def colour(c):
            c = to_hex(c)
            if c not in names:
                names.append(c)
            return names.index(c)
        marks, tilts = [], []
        for ln in a1.lines:
            x, y = (np.atleast_1d(z) for z in ln.get_data())
            if ln.get_marker() == 'o':
                marks.append({'at': [mm(p) for p in zip(x, y)], 'c': colour(ln.get_color())})
            else:
                tilts.append({'a': mm([x[0], y[0]]), 'b': mm([x[-1], y[-1]]), 'c': colour(ln.get_color())})
        curves = [{'x': ints(ln.get_xdata(), sx), 'y': ints(ln.get_ydata(), sy), 'c': colour(ln.get_color())} for ln in a2.lines]
        title = fig.get_suptitle()
        num = [float(x) for x in re.findall(r'[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?', title.split('=', 1)[1])] if '=' in title else []
        return {'title': ints(num, s0), 'marks': marks, 'tilts': tilts, 'curves': curves}

    def gfigure():
        n = max(1, nf)
        before = g.gFunc.copy()
        every = nf == 0 or rng.random() < .5
        pairs = [] if every else rng.sample([(i, j) for i in range(n) for j in range(n)], rng.randint(1, n * n))
        asked = list(pairs)
        fig, err = attempt(lambda: g.visualize_g_function() if every else g.visualize_g_function(which=asked))
        lines = []
        if fig is not None:
            for ln in fig.axes[0].lines:
                d = re.findall(r'\d', str(ln.get_label()))
                lines.append({'x': ints(ln.get_xdata(), S['lt']), 'y': ints(ln.get_ydata(), S['g']), 'p': [int(d[0]) + 1, int(d[1]) + 1] if len(d) == 2 and nf else [0, 0]})
        plt.close('all')
        ev.append({'ev': 'GFigure', 'every': every, 'pairs': [[i + 1, j + 1] for i, j in pairs], 'err': err, 'lines': lines,
                   'kept': bool(np.array_equal(before, g.gFunc) and asked == pairs)})

    for o in beh:
        if o['op'] == 'solve':
            solve(o['s']['nt'])
        else:
            r = dict(o['r'])
            if not nf:
                r['which'], r['every'] = [], True
            draw(r)
        if rng.random() < .2:
            gfigure()


def drawings(ev, seed):
    """Figures of fields and of sections of boreholes."""
    rng = random.Random(seed)
    gt = fl.gt
    n = rng.randint(1, 5)
    cells = rng.sample([(x, y) for x in range(3) for y in range(3)], n)
    w = []
    for x, y in cells:
        t = rng.choice([0., rng.uniform(.05, .5)])
        w.append([rng.uniform(50., 200.), rng.choice([0., 2., 4.5]), .075, 6. * x + rng.uniform(0., 1.), 6. * y, t, rng.uniform(-3., 3.) if t else 0.])
    bores = [fl.models.borehole(b) for b in w]
    a = {}
    top, space = rng.choice([(True, True), (True, False), (False, True)])
    labels, tilt = rng.random() < .6, rng.random() < .6
    for k, v in (('viewTop', top), ('view3D', space), ('labels', labels), ('showTilt', tilt)):
        if not v or rng.random() < .3:
            a[k] = v
    F = gt.borefield.Borefield.from_boreholes(bores)
    before = [vars(b).copy() for b in bores]
    call = rng.choice([F.visualize_field, lambda **k: gt.boreholes.visualize_field(bores, **k), lambda **k: gt.boreholes.visualize_field(F, **k)])
    fig, err = attempt(call, **a)
    f = {'heads': [], 'tilts': [], 'labels': [], 'heads3': [], 'lines3': []}
    views = []
    m3 = lambda *c: mm(c)
    for ax in (fig.axes if fig is not None else []):
        d3 = hasattr(ax, 'get_zlim')
        views.append('space' if d3 else 'top')
        for ln in ax.lines:
            c = [np.atleast_1d(np.asarray(z, dtype=float)) for z in (ln.get_data_3d() if d3 else ln.get_data())]
            pts = list(zip(*c))
            if ln.get_marker() == 'o':
                f['heads3' if d3 else 'heads'] += [mm(p) for p in pts]
            else:
                f['lines3' if d3 else 'tilts'].append(mm([z for p in pts for z in p]))
        if not d3:
            f['labels'] += [{'k': int(x.get_text()), 'at': mm(x.get_position())} for x in ax.texts]
    plt.close('all')
    ev.append({'ev': 'FieldFigure', 'top': top, 'space': space, 'labels': labels, 'tilt': tilt, 'err': err, 'views': views, 'f': f,
               'heads': [mm(b[3:5]) for b in w], 'bottoms': [mm(bottom(b)) for b in w], 'depth': [mm([b[1]])[0] for b in w],
               'under': [mm([b[1] + b[0] * math.cos(b[5])])[0] for b in w],
               'kept': [vars(b) for b in bores] == before})
    kind = rng.choice(fl.models.PIPES + ['indep-2', 'indep-3'])
    phase = rng.uniform(0., 3.)
    p = fl.models.pipe(kind, bores[0], phase=phase)
    co = kind.startswith('coax')
    if co:
        ri, ro = [.0221, .0487], [.025, .055]
        if kind == 'coax-in':
            ri, ro = ri[::-1], ro[::-1]
        pipes = [{'at': [0, 0], 'in': mm([ri[i]])[0], 'out': mm([ro[i]])[0], 'tube': 0, 'from': mm([ro[1 - i]])[0] if ri[i] > ri[1 - i] else 0} for i in range(2)]
    else:
        k = 1 if kind == 'single' else int(kind[-1])
        pipes = [{'at': mm(q), 'in': 108, 'out': 134, 'tube': i % k, 'from': 0} for i, q in enumerate(fl.models.around(k, .05, phase))]
    before = p._Rd.copy()
    fig, err = attempt(p.visualize_pipes)
    circles, texts, names = [], [], []
    for ax in (fig.axes if fig is not None else []):
        for c in ax.patches:
            h = to_hex(c.get_edgecolor())
            names += [h] if h not in names else []
            circles.append({'at': mm(c.center), 'r': mm([c.radius])[0], 'c': names.index(h)})
        texts += [{'k': int(x.get_text()), 'at': mm(x.get_position())} for x in ax.texts]
    plt.close('all')
    ev.append({'ev': 'PipeFigure', 'err': err, 'coaxial': co, 'wall': 750, 'pipes': pipes, 'circles': circles, 'labels': texts,
               'kept': bool(np.array_equal(before, p._Rd))})


FUNCS = {'figures': figures, 'drawings': drawings}
CFG = '''CONSTANTS NB = %d
NF = %d
NT = %d
NOps = %d
Mut = "%s"
Gen = %s
SPECIFICATION Spec
INVARIANTS %s
'''


def main(chk):
    q = chk.quick
    chk.design('MCFigures', CFG % ((2, 2, 2, 3, 'none', 'FALSE', 'Right') if q else (3, 2, 2, 2, 'none', 'FALSE', 'Right')), label='MCFigures', workers=4, timeout=800)
    for m in ('stale', 'last', 'title', 'flow', 'head', 'order', 'tilt'):
        chk.design('MCFigures', CFG % (2, 2, 2, 3, m, 'FALSE', 'Right'), expect={'Right'}, label=f'MCFigures, wrong {m}')
    n = 160 if q else 2500
    beh = chk.behaviours('MCFigures', CFG % (4, 3, 3, 7, 'none', 'TRUE', 'Emit'), simulate=(n + 20, 250), label='MCFigures (requests)')
    tasks = []
    for k, b in enumerate(beh[:n]):
        nf = b[0]['s']['nf']
        bc = 'MIFT' if nf or k % 4 == 3 else chk.rng.choice(['UHTR', 'UBWT'])
        method = fl.METHODS[k % 3]
        tasks.append((f'{bc}-{method}-{k}', 'figures', {'seed': chk.rng.getrandbits(40), 'beh': b, 'bc': bc, 'method': method,
                                                        'tilted': method != 'equivalent' and chk.rng.random() < .4}))
    m = 160 if q else 2000
    tasks += [(f'drawings-{k}', 'drawings', {'seed': chk.rng.getrandbits(40)}) for k in range(m)]
    eps = chk.run(FUNCS, tasks, limit=120.)
    chk.validate('TraceFigures', eps)
    chk.bounds = {'sequences': n, 'drawings of fields and pipes': m, 'operations': 7, 'boreholes (or groups)': '1 to 4', 'flow conditions': '0 to 3', 'times': '1 to 3'}
