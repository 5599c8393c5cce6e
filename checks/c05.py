"""C05: results of pipes and networks do not depend on earlier calls.  Call
sequences are behaviours of CoefCache."""
import numpy as np
from tv import load_repo, ints, scale_of
from models import pipe, ratios, anywhere
from c03 import chain_vector
gt = load_repo()

PM = ['coefficients_inlet_temperature', 'coefficients_outlet_temperature', 'coefficients_temperature',
      'coefficients_borehole_heat_extraction_rate', 'coefficients_fluid_heat_extraction_rate',
      'effective_borehole_thermal_resistance', 'get_temperature', 'get_total']
NM = ['coefficients_inlet_temperature', 'coefficients_outlet_temperature', 'coefficients_network_inlet_temperature',
      'coefficients_network_outlet_temperature', 'coefficients_borehole_heat_extraction_rate',
      'coefficients_fluid_heat_extraction_rate', 'coefficients_network_heat_extraction_rate', 'resistance']
RFP = {1: 0.1, 2: 0.17, 3: 0.06}


def flat(x):
    if isinstance(x, (tuple, list)):
        return np.concatenate([np.asarray(a, dtype=float).ravel() for a in x])
    return np.asarray(x, dtype=float).ravel()


def near(rng, x):
    """Exchange some length between two segments, in place."""
    i = rng.sample(range(len(x) > 2 and rng.random() < .8, len(x)), 2)
    x[i] += np.array([.04, -.04]) * x[i].min()
    return x


class Flow:
    """A flow rate argument of the caller, changed in place when it can be."""
    def __init__(self, contents):
        self.contents = contents
        self.set(1)

    def set(self, v):
        m, cp = self.contents[v]
        if isinstance(m, np.ndarray) and isinstance(getattr(self, 'm', None), np.ndarray) and m.shape == self.m.shape:
            self.m[:] = m
        else:
            self.m = m.copy() if isinstance(m, np.ndarray) else m
        if isinstance(cp, np.ndarray) and isinstance(getattr(self, 'cp', None), np.ndarray) and cp.shape == self.cp.shape:
            self.cp[:] = cp
        else:
            self.cp = cp.copy() if isinstance(cp, np.ndarray) else cp


class Ratios:
    """Segment ratios, one array (or list of arrays) per segmentation."""
    def __init__(self, contents):
        self.contents = contents
        c = contents[1]
        self.a = {k: ([x.copy() for x in v] if isinstance(v, list) else v.copy()) for k, v in c.items()}

    def set(self, v):
        for k, x in self.contents[v].items():
            if isinstance(x, list):
                for y, z in zip(self.a[k], x):
                    y[:] = z
            else:
                self.a[k][:] = x


def session(ev, what, calls, seed, c=None, pre=False, mutseg=False):
    """One long-lived object and the calls of a behaviour."""
    rng = np.random.default_rng(seed)
    import random
    prng = random.Random(seed)
    net = what == 'network'
    cp1, cp2 = 4000., 3600.
    if net:
        n = len(c)
        nin = c.count(-1)
        kinds = [prng.choice(['single', 'multi-ser-2', 'coax-in', 'multi-par-2']) for _ in range(n)]
        b = [gt.boreholes.Borehole(100. + 5 * i, 4., 0.075, 6. * i, 0.) for i in range(n)]
        mv = rng.uniform(.15, .5, nin)
        T = float(mv.sum())
        flows = {1: (T, cp1), 2: (mv, cp1), 3: (-T, cp1), 4: (np.full(nin, T), cp1),
                 5: (mv[::-1].copy() if nin > 1 else mv * 2, np.full(nin, cp2)), 6: (-mv, cp1), 7: (T, cp2)}
        segs = {1: 2, 2: 3, 3: [2 + (i % 3) for i in range(n)]}
        if n > 1 and prng.random() < .4:
            # as many segments, in other boreholes
            segs[1] = segs[3][::-1] if prng.random() < .6 else segs[3][1:] + segs[3][:1]
        sl = {k: [v] * n if isinstance(v, int) else v for k, v in segs.items()}
        rats = {v: {k: ([ratios(prng, s) for s in x] if v != 2 or len(set(x)) > 1 else ratios(prng, x[0]))
                    for k, x in sl.items()} for v in (1, 2, 3)}
        # the third contents differ in two segments of one borehole only
        rats[3] = {k: [a.copy() for a in x] for k, x in rats[1].items()}
        for k, x in rats[3].items():
            near(prng, prng.choice([x[0], x[-1]]))
        robj = [{v: rats[v] if isinstance(rats[v][k], list) else None for v in (1, 3)} for k in (1,)][0]

        pos = [anywhere(prng, k) for k in kinds]

        def make(R, coef=None, keep=None):
            ps = [pipe(k, x, R_fp=RFP[r], pos=y, keep=keep) for k, x, r, y in zip(kinds, b, R, pos)]
            if coef:
                return gt.networks.Network(b, ps, bore_connectivity=list(c), **coef)
            return gt.networks.Network(b, ps, bore_connectivity=list(c))
        npipes = n
        methods = NM
    else:
        nin = 3 if what == 'indep-3' else 1
        b = gt.boreholes.Borehole(120., 4., 0.075, 0., 0.)
        if what.startswith('indep'):
            nin = int(what[-1])
            m1 = rng.uniform(.1, .4, nin)
            m2 = m1.copy()
            m2[-1] *= -1.
            flows = {1: (m1, cp1), 2: (m1[::-1] * 1.3, cp1), 3: (-m1, cp1), 4: (m2, cp1),
                     5: (m1, np.linspace(cp2, cp1, nin)), 6: (m1 * .7, cp1), 7: (m1, cp2)}
        else:
            m = float(rng.uniform(.1, .5))
            flows = {1: (m, cp1), 2: (1.4 * m, cp1), 3: (-m, cp1), 4: (.6 * m, cp1), 5: (m, cp2), 6: (-1.4 * m, cp1),
                     7: (m * (1 + 3e-5), cp1)}
        segs = {1: 2, 2: 3, 3: 5}
        rats = {v: {k: ratios(prng, s) for k, s in segs.items()} for v in (1, 2, 3)}
        if prng.random() < .5:
            rats[2] = {k: near(prng, x.copy()) for k, x in rats[1].items()}
        robj = rats

        pos = anywhere(prng, what)

        def make(R, coef=None, keep=None):
            return pipe(what, b, R_fp=RFP[R[0]], pos=pos, keep=keep)
        npipes = 1
        # the effective resistance is not defined for independent U-tubes
        methods = [m if m != 'effective_borehole_thermal_resistance' or not what.startswith('indep') else 'get_outlet'
                   for m in PM]
    F = {o: Flow(flows) for o in (1, 2)}
    Rt = {o: Ratios({1: rats[1], 2: rats[3]} if net else {1: rats[1], 2: rats[2]}) for o in (1, 2)}
    R = [1] * npipes
    coef = dict(m_flow_network=F[1].m, cp_f=F[1].cp, nSegments=segs[1]) if net and pre else None
    if net and not pre and prng.random() < .3:
        # nothing is evaluated from some of them
        coef = dict(m_flow_network=F[1].m, cp_f=F[1].cp, nSegments=segs[1])
        for k in prng.sample(list(coef), prng.choice([1, 2])):
            del coef[k]
    built = []      # arguments of the pipes
    obj = make(R, coef, built)
    Tb = {k: rng.uniform(0., 20., sum(s) if isinstance(s, list) else (s * npipes if net else s)) for k, s in segs.items()}
    z = np.array([0., 13., 61., 120.])
    userseg = {k: (list(v) if isinstance(v, list) else v) for k, v in segs.items()}

    def call(o, m, f, s, r, sarg):
        name = methods[m - 1]
        a = (f.m, f.cp)
        sr = None if r == 0 else Rt[r].a[s]
        if name == 'effective_borehole_thermal_resistance':
            return o.effective_borehole_thermal_resistance(*a)
        if name == 'resistance':
            return gt.networks.network_thermal_resistance(o, *a)
        if name == 'get_temperature':
            tin = 5. if nin == 1 else np.linspace(5., 8., nin)
            return o.get_temperature(z, tin, Tb[s], *a, segment_ratios=sr)
        if name == 'get_outlet':
            return o.get_outlet_temperature(np.linspace(5., 8., nin), Tb[s], *a, segment_ratios=sr)
        if name == 'get_total':
            tin = 5. if nin == 1 else np.linspace(5., 8., nin)
            return o.get_total_heat_extraction_rate(tin, Tb[s], *a, segment_ratios=sr)
        if name == 'coefficients_temperature':
            return o.coefficients_temperature(z, *a, sarg, segment_ratios=sr)
        return getattr(o, name)(*a, sarg, segment_ratios=sr)

    ev.append({'ev': 'Start', 'nf': 2, 'nr': 2, 'np': npipes, 'what': what})
    given = {}      # last results of each method
    for q in calls:
        if q[0] == 'Flow':
            F[q[1]].set(q[2])
            ev.append({'ev': 'Flow', 'o': q[1], 'v': q[2]})
        elif q[0] == 'Ratio':
            Rt[q[1]].set(q[2])
            ev.append({'ev': 'Ratio', 'o': q[1], 'v': q[2]})
        elif q[0] == 'Update':
            p = len(ev) % npipes
            R[p] = q[1]
            x = obj.p[p] if net else obj
            k = kinds[p] if net else what
            if k.startswith('coax'):
                x.update_thermal_resistances(0.15, RFP[q[1]])
            else:
                x.update_thermal_resistances(RFP[q[1]])
            ev.append({'ev': 'Update', 'p': p + 1, 'v': q[1]})
        elif q[0] == 'Spoil':
            x = given.get(q[1], ())
            for y in x if isinstance(x, (tuple, list)) else (x,):
                if isinstance(y, np.ndarray):
                    y *= 1.5
                    y += 1.
            for y in built:
                y[:] = [(.9 * p[0], .95 * p[1]) for p in y] if isinstance(y, list) else .9 * y
            ev.append({'ev': 'Spoil', 'm': q[1]})
        else:
            _, m, f, s, r = q
            # a list of segment numbers that the caller fills in place
            sarg = userseg[s]
            if isinstance(sarg, list) and mutseg:
                shared = userseg.setdefault('shared', list(sarg))
                shared[:] = sarg
                sarg = shared
            elif isinstance(sarg, int) and mutseg and net:
                shared = userseg.setdefault('shared', [sarg] * n)
                shared[:] = [sarg] * n
                sarg = shared
            given[m] = call(obj, m, F[f], s, r, sarg)
            v = flat(given[m]).copy()
            w = flat(call(make(R), m, F[f], s, r, segs[s]))
            sc = scale_of(w)
            # the arguments of indep pipes are arrays: effective resistance is a matrix in no case
            ev.append({'ev': 'Query', 'm': m, 'f': f, 's': s, 'r': r, 'v': ints(v, sc), 'w': ints(w, sc)})


FUNCS = {'session': session}
SMALL = '''CONSTANTS Methods = {1, 2}
FObjs = {1, 2}
FVals = {1, 2}
Segs = {1, 2}
RObjs = {1}
RVals = {1, 2}
Res = {1, 2}
Mut = "%s"
Gen = 0
SPECIFICATION Spec
INVARIANT Fresh
'''
GEN = '''CONSTANTS Methods = {1, 2, 3, 4, 5, 6, 7, 8}
FObjs = {1, 2}
FVals = {1, 2, 3, 4, 5, 6, 7}
Segs = {1, 2, 3}
RObjs = {1, 2}
RVals = {1, 2}
Res = {1, 2, 3}
Mut = "none"
Gen = %d
SPECIFICATION Spec
INVARIANT Fresh
CONSTRAINT Emit
'''
# few argument values, so that remembered and current arguments often agree
GEN2 = GEN.replace('FVals = {1, 2, 3, 4, 5, 6, 7}', 'FVals = {%s}').replace('Segs = {1, 2, 3}', 'Segs = {1}') \
          .replace('RObjs = {1, 2}', 'RObjs = {1}') \
          .replace('Methods = {1, 2, 3, 4, 5, 6, 7, 8}', 'Methods = {%s}')


def main(chk):
    chk.design('CoefCache', SMALL % 'none', label='CoefCache', workers=4)
    for m in ('alias-flow', 'alias-ratio', 'key-segments', 'key-ratios', 'keep', 'keep-model', 'alias-result'):
        chk.design('CoefCache', SMALL % m, expect={'Fresh'}, label='CoefCache with ' + m)
    d = 40
    n = 45 if chk.quick else 600
    beh = chk.behaviours('CoefCache', GEN % d, simulate=(n, d + 1), label='CoefCache behaviours')
    for i, fv in enumerate((('1, 4, 5', '1, 2'), ('2, 6, 8', '1, 4'), ('3, 7', '1, 3'), ('1, 2, 3, 4, 5, 6, 7, 8', '2, 6'))):
        beh += chk.behaviours('CoefCache', GEN2 % (*fv, d), simulate=(n // 3, d + 1), label='CoefCache narrow behaviours')
    beh = [b for b in beh if len(b) == d]
    rng = chk.rng
    whats = ['single', 'multi-par-2', 'multi-ser-2', 'indep-2', 'indep-3', 'coax-in', 'coax-out', 'network', 'network',
             'network', 'network']
    ts = []
    rng.shuffle(beh)
    beh = beh[:200 if chk.quick else 4000]
    for i, b in enumerate(beh):
        w = whats[i % len(whats)]
        k = dict(what=w, calls=b, seed=rng.getrandbits(30))
        if w == 'network':
            k.update(c=chain_vector(rng, rng.randint(1, 4)), pre=rng.random() < .3, mutseg=rng.random() < .3)
        ts.append((f'{w}-{i}', 'session', k))
    eps = chk.run(FUNCS, ts)
    chk.bounds = {'behaviours': f'{len(beh)} call sequences of {d} calls on long-lived objects'}
    chk.validate('TraceCache', eps)
