"""C22: g-functions do not depend on how a case is stated.  Every request is
compared with the class given every argument, following the plans of Cases."""
import contextlib
import copy
import io
import random
import numpy as np
from tv import load_repo, ints, scale_of, attempt
from models import pipe, ratios
gt = load_repo()
G = gt.gfunction

DEFAULTS = {'nSegments': 8, 'segment_ratios': gt.utilities.segment_ratios, 'approximate_FLS': False, 'nFLS': 10, 'mQuad': 11,
            'linear_threshold': None, 'disp': False, 'profiles': False, 'kind': 'linear', 'dtype': np.double}
SPECIFIC = {'detailed': {}, 'similarities': {'disTol': .01, 'tol': 1e-6}, 'equivalent': {'disTol': .01, 'tol': 1e-6, 'kClusters': 1}}


def number(rng, x):
    """A number of some kind."""
    k = rng.choice(['float', 'np', 'np0', 'int'])
    if k == 'int' and abs(x) >= 100.:
        return rng.choice([int, np.int64])(x), float(int(x))
    return {'np': np.float64(x), 'np0': np.array(float(x))}.get(k, float(x)), float(x)


class World:
    """Boreholes, pipes, and a network that keeps flows."""

    def __init__(self, rng, n):
        self.nb = rng.randint(2, 4) if not n['mixed'] else rng.randint(3, 4)
        H = rng.uniform(60., 140.)
        D = rng.uniform(1., 5.)
        self.dim = [(H * (1. + .04 * (i % 2)), D, .075, 6. * i * (1. + .03 * i), .3 * i * i) for i in range(self.nb)]
        if n['tilted']:
            t = rng.uniform(.02, .12)
            self.dim = [(*d, t, 2.5 * i * (rng.random() < .5)) for i, d in enumerate(self.dim)]
        self.series = n['series']
        kind = rng.choice(['single', 'multi-par-2', 'multi-ser-2', 'coax-in'])
        self.kinds = [kind] * self.nb
        self.R = [.1] * self.nb
        if n['mixed']:
            j = rng.randrange(self.nb)
            how = rng.choice(['kind', 'connection', 'resistance'])
            if how == 'kind':
                self.kinds[j] = rng.choice([k for k in ('single', 'multi-par-2', 'coax-out', 'coax-in', 'multi-ser-3') if k != kind])
            elif how == 'connection':
                self.kinds = ['multi-par-2'] * self.nb
                self.kinds[j] = 'multi-ser-2'
            else:
                self.R[j] = .16
        if self.series:
            self.c = [-1] * self.nb
            for i in range(rng.randint(1, self.nb - 1), self.nb):
                self.c[i] = i - 1
        else:
            self.c = [-1] * self.nb
        self.ni = self.c.count(-1)
        self.uneven = n['uneven']
        if self.uneven and self.ni < 2:
            # one circuit cannot be uneven: join fewer boreholes
            self.c = [-1] * self.nb
            self.ni = self.nb
            if self.series:
                self.nb = max(self.nb, 3)
                while len(self.dim) < self.nb:
                    self.dim.append((H, D, .075, 0., 9. * len(self.dim)))
                    self.kinds.append(self.kinds[0])
                    self.R.append(self.R[0])
                self.c = [-1] * (self.nb - 1) + [0]
                self.ni = self.nb - 1
        # the boreholes of a circuit may be listed in any order
        at = rng.sample(range(self.nb), self.nb)
        c = [-1] * self.nb
        for i, j in enumerate(self.c):
            if j >= 0:
                c[at[i]] = at[j]
        self.c = c
        self.stored, self.meant = self.flow(rng, n['flow'])
        cp = rng.choice([4180., 3795.5, 4000.])
        self.cp, self.cpmeant = number(rng, cp) if n['cp'] else (None, None)
        self.net = self.network(m_flow_network=self.stored, cp_f=self.cp)

    def holes(self):
        return [gt.boreholes.Borehole(*d) for d in self.dim]

    def network(self, series=True, **k):
        b = self.holes()
        return gt.networks.Network(b, self.pipes(b), bore_connectivity=list(self.c) if series else None, **k)

    def pipes(self, b):
        return [pipe(k, x, R_fp=r) for k, x, r in zip(self.kinds, b, self.R)]

    def flow(self, rng, how, circuits=None, many=False):
        """A statement of a flow, and the flows of circuits it means."""
        ni = circuits or self.ni
        if many:
            k = rng.randint(1, 3)
            if how == 'total':
                x = np.array([10. ** rng.uniform(-1., .2) * rng.choice([1, 1, -1]) * ni for _ in range(k)])
                return x, np.outer(x, np.full(ni, 1. / ni))
            odd = rng.randrange(k)
            f = [rng.choice([1.02, 1.3, 3.]) if self.uneven and (i == odd or rng.random() < .5) else 1. for i in range(k)]
            x = np.array([10. ** rng.uniform(-1., .2) * rng.choice([1, 1, -1]) * y ** np.arange(ni) for y in f])
            return x, x.copy()
        m = 10. ** rng.uniform(-1.2, .2) * rng.choice([1, 1, -1])
        if how == 'none':
            return None, None
        if how == 'total':
            x, v = number(rng, m * ni) if rng.random() < .8 else (max(1, ni), float(max(1, ni)))
            return x, np.full(ni, v / ni)
        if how == 'each':
            x, v = number(rng, m) if rng.random() < .8 else (1, 1.)
            return x, np.full(ni, v)
        f = rng.choice([1.02, 1.3, 3.]) if self.uneven else 1.
        a = np.array([m * f ** i for i in range(ni)])
        return a, a.copy()


def options(rng, c, w, method):
    """Options given, and what they mean in full."""
    o = {}
    n = 8
    nb = 1 if c['form'] == 'hole' else w.nb
    if 'nSegments' in c['opts']:
        n = rng.randint(1, 4)
        o['nSegments'] = [rng.randint(1, 4) for _ in range(nb)] if method != 'equivalent' and rng.random() < .4 else n
    k = o.get('nSegments', 8)
    if 'segment_ratios' in c['opts']:
        how = rng.choice(['none', 'array', 'callable', 'list'])
        eq = lambda j: np.array([1. + .1 * i for i in range(j)]) / sum(1. + .1 * i for i in range(j))
        if isinstance(k, list):
            o['segment_ratios'] = {'none': None, 'callable': eq}.get(how, [ratios(rng, j) for j in k])
        else:
            r = ratios(rng, k)
            o['segment_ratios'] = {'none': None, 'callable': eq, 'array': r}.get(how, [r.copy() for _ in range(nb)])
    if 'kind' in c['opts']:
        o['kind'] = rng.choice(['slinear', 'quadratic', 'cubic', 'cubic'])
    if 'disTol' in c['opts']:
        o['disTol'] = rng.choice([.1, .04, 1e-6])
    if 'tol' in c['opts']:
        o['tol'] = rng.choice([.1, 1e-3])
    if 'dtype' in c['opts']:
        o['dtype'] = rng.choice([np.single, np.single, np.double])
    if 'linear_threshold' in c['opts']:
        o['linear_threshold'] = rng.choice([3e6, 1e5, 2e7]) if 'kind' not in o else 1e5
    if 'approximate_FLS' in c['opts']:
        o['approximate_FLS'] = True
    if 'nFLS' in c['opts']:
        o['nFLS'] = rng.randint(1, 20)
    if 'kClusters' in c['opts']:
        o['kClusters'] = rng.randint(0, 3)
    if 'mQuad' in c['opts']:
        o['mQuad'] = rng.choice([5, 7, 15, 21])
    if 'disp' in c['opts']:
        o['disp'] = rng.choice([True, True, False])
    if 'profiles' in c['opts']:
        o['profiles'] = True
    return o


def inject(rng, c, w, o, b):
    """Make a request invalid."""
    f = c['flaw']
    if f == 'duplicate':
        b.insert(rng.randint(0, len(b)), gt.boreholes.Borehole(b[0].H, b[0].D, .075, b[0].x, b[0].y + .01))
    elif f == 'empty':
        b.clear()
    elif f == 'segments':
        nb = 1 if c['form'] == 'hole' else len(b)
        o['nSegments'] = [2] * (nb + rng.choice([-1, 1, 2]))
        o['segment_ratios'] = None
    elif f == 'ratios':
        nb = 1 if c['form'] == 'hole' else len(b)
        o['nSegments'] = 2
        r = np.array([.3, .7])
        o['segment_ratios'] = rng.choice([[r] * (nb + 1), np.array([.3, .6]), np.array([.6, .7]), np.array([.2, .3, .5]), [r] * (nb - 1)])


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(b) is type(a) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, np.ndarray):
        return type(b) is type(a) and a.shape == b.shape and bool(np.all(a == b))
    return a is b or (type(a) is type(b) and a == b)


def cases(ev, seed, beh):
    rng = random.Random(seed)
    w = World(rng, beh[0]['n'])
    for step in beh:
        c, plan, legal = step['c'], step['plan'], step['legal']
        own = c['entry'] == 'equal'
        b = w.holes()
        if c['form'] == 'net':
            b = w.net.b
        elif c['form'] == 'hole':
            b = b[:1]
        asked = plan['method'] if legal else 'similarities'
        o = options(rng, c, w, asked)
        given = copy.deepcopy(o)
        inject(rng, c, w, o, b)
        alpha = rng.uniform(.5, 1.5) * 1e-6
        alpha, alphameant = rng.choice([(np.float64(alpha), alpha), (alpha, alpha)])
        time = np.sort(10. ** np.array([rng.uniform(6., 10.) for _ in range(rng.randint(4, 5))]))
        if rng.random() < .3:
            # some times are repeated
            time = np.sort(np.append(time, rng.sample(list(time), rng.randint(1, 2))))
        elif 'kind' not in o and rng.random() < .15:
            time = float(time[-1])
        ni = len(b) if own else w.ni
        how = 'each' if own and c['given'] == 'total' else c['given']
        m, meant = w.flow(rng, how if how != 'both' else 'circuits', ni, c['many'])
        if c['flaw'] == 'circuits':
            m = np.full((2, ni + 1) if c['many'] else ni + 1, .1)
        cp, cpm = number(rng, rng.choice([4180., 3900., 3500.25])) if c['cp'] else (None, None)
        held = copy.deepcopy((m, o, time, w.stored, w.cp))
        later = c['entry'] == 'class' and rng.random() < .4
        # functions have a segment of their own default, and no options
        sim = {'none': {}, 'detailed': {'use_similarities': False}, 'similarities': {'use_similarities': True}}.get(c['method'], {})
        what = {'hole': lambda: b[0], 'list': lambda: b, 'field': lambda: gt.borefield.Borefield.from_boreholes(b), 'net': lambda: w.net}[c['form']]

        def state():
            e = c['entry']
            if e == 'uhtr':
                return G.uniform_heat_extraction(what(), time, alpha, **sim, **o)
            if e == 'ubwt':
                return G.uniform_temperature(what(), time, alpha, **sim, **o)
            if e == 'equal':
                x = what()
                return G.equal_inlet_temperature(x, w.pipes(b), m, cp, time, alpha, **sim, **o)
            if e == 'mixed':
                return G.mixed_inlet_temperature(w.net, m, cp, time, alpha, **sim, **o)
            k = {}
            if e == 'field':
                if c['bc'] != 'none':
                    k['boundary_condition'] = c['bc'] if c['bc'] != 'bad' else 'UBWTT'
                if c['method'] != 'none':
                    k['method'] = c['method'] if c['method'] != 'bad' else 'exact'
                if o or rng.random() < .5:
                    k['options'] = o or rng.choice([None, o])
                return what().evaluate_g_function(alpha, time, **k)
            if c['bc'] != 'none':
                k['boundary_condition'] = c['bc'] if c['bc'] != 'bad' else 'UBWTT'
            if c['method'] != 'none':
                k['method'] = c['method'] if c['method'] != 'bad' else 'exact'
            if c['given'] in ('total',):
                k['m_flow_network'] = m
            elif c['given'] == 'circuits':
                k['m_flow_borehole'] = m
            elif c['given'] == 'both':
                k['m_flow_borehole'] = m
                k['m_flow_network'] = float(np.sum(m))
            if c['cp']:
                k['cp_f'] = cp
            if not later:
                k['time'] = time
            f = G.gFunction(what(), alpha, options=o, **k)
            return f.evaluate_g_function(time) if later else f.gFunc

        def full():
            opts = dict(DEFAULTS)
            opts.update(SPECIFIC[plan['method']])
            for name, v in plan['opts'].items():
                if v == 'given' and name in given and (name in DEFAULTS or name in SPECIFIC[plan['method']]):
                    opts[name] = given[name]
                elif v == 'one':
                    opts['nSegments'] = 1
            x = [gt.boreholes.Borehole(*d) for d in (w.dim[:1] if c['form'] == 'hole' else w.dim)]
            k = {}
            if plan['flow']['how'] != 'none':
                k['m_flow_borehole'] = meant if plan['flow']['src'] == 'given' else w.meant
                k['cp_f'] = cpm if plan['cp'] == 'given' else w.cpmeant
                x = w.network(series=not own)
            f = G.gFunction(x, alphameant, time=copy.deepcopy(time), method=plan['method'], boundary_condition=plan['bc'], options=opts, **k)
            return f.gFunc
        said = io.StringIO()
        with contextlib.redirect_stdout(said):
            r, err = attempt(state)
        kept = same(held, (m, o, time, w.stored, w.cp)) and w.net.m_flow_network is w.stored and w.net.cp_f is w.cp
        with contextlib.redirect_stdout(io.StringIO()):
            q, merr = attempt(full) if legal else (None, '')
        z = lambda x: [0.] if x is None else x
        s = scale_of(z(q))
        ev.append({'ev': 'Stated', 'c': c, 'n': step['n'], 'err': err, 'merr': merr, 'g': ints(np.ravel(z(r)), s), 'mg': ints(np.ravel(z(q)), s),
                   'bytes': np.asarray(z(r)).dtype.itemsize, 'mbytes': np.asarray(z(q)).dtype.itemsize,
                   'shape': list(np.shape(r)) if r is not None else [], 'mshape': list(np.shape(q)) if q is not None else [],
                   'single': given.get('dtype') is np.single, 'kept': bool(kept),
                   'disp': bool(given.get('disp', False)), 'said': bool(said.getvalue().strip())})


FUNCS = {'cases': cases}
CFG = '''SPECIFICATION Spec
CONSTANTS NCalls = %d
 Opts = {%s}
 Mut = "%s"
 Gen = %s
INVARIANTS %s
'''
ALL = 'Rejects Meant\nPROPERTIES Kept'
FEW = '{}, {"kind"}'
MANY = FEW + ', {"segment_ratios"}, {"disTol"}, {"tol"}, {"dtype"}, {"kClusters"}, {"kind", "nSegments", "dtype"}'
BOTH = {'Meant', 'Rejects'}
MUTS = {'tilt': {'Rejects'}, 'tilt-first': {'Rejects'}, 'drop-kind': {'Meant'}, 'no-similarities': {'Meant'}, 'segments': {'Meant'}, 'times': {'Meant'},
        'drop-flow': BOTH, 'drop-capacity': BOTH, 'default-bc': BOTH, 'stored-first': BOTH, 'short-lists': {'Rejects'}, 'both': {'Rejects'},
        'series': BOTH, 'uneven': BOTH, 'pipes': BOTH}


def main(chk):
    q = chk.quick
    chk.design('MCCases', CFG % (1, FEW if q else MANY, 'none', 'FALSE', ALL), label='MCCases', workers=4)
    for m, inv in MUTS.items():
        chk.design('MCCases', CFG % (1, '{"kind"}' if m == 'drop-kind' else '{}', m, 'FALSE', ALL), expect=inv, label='MCCases with ' + m)
    chk.design('MCCases', CFG % (1, '{}', 'remember', 'FALSE', 'Rejects\nPROPERTIES Kept'), expect={'Kept', 'Rejects'}, label='MCCases with remember')
    n = 260 if q else 5000
    beh = chk.behaviours('MCCases', CFG % (4, FEW, 'none', 'TRUE', 'Rejects Meant Emit'), simulate=(n + 40, 40), label='MCCases (statements)')
    tasks = [(f'cases-{k}', 'cases', {'seed': chk.rng.getrandbits(40), 'beh': b}) for k, b in enumerate(beh[:n])]
    eps = chk.run(FUNCS, tasks, limit=120.)
    chk.validate('TraceCases', eps)
    chk.bounds = {'requests': sum(len(b) for b in beh[:n]), 'boreholes': '1 to 4', 'requests per network': 4}
    chk.assumptions = ['solvers are judged by C13 to C18; here the class given every argument only serves to state a case another way']
