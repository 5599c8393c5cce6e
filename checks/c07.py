"""C07: thermal resistances of pipes, in any history of constructions, updates
and direct calls."""
import multiprocessing as mp
import numpy as np
from tv import load_repo, ints, scale_of, Machinery
from models import around
gt = load_repo()
P = gt.pipes
SINGLE = around(1, .05)
DOUBLE = around(2, .05)
BASE = dict(kind='single', pos=SINGLE, r_out=.0134, r_b=.075, k_s=2., k_g=1., J=2)
# geometries that differ from the previous one in a single parameter
GEOS = {
    1: BASE,
    2: dict(BASE, k_s=2.5),
    3: dict(BASE, k_g=1.2),
    4: dict(BASE, r_b=.08),
    5: dict(BASE, r_out=.0150),
    6: dict(BASE, J=1),
    7: dict(BASE, pos=[(.05, 0.), (-.045, 0.)]),
    8: dict(BASE, pos=[(.05, 0.), (-.05, .01)]),
    9: dict(BASE, pos=[(.045, 0.), (-.05, 0.)]),
    10: dict(BASE, kind='multi-ser', pos=DOUBLE),
    11: dict(BASE, kind='multi-par', pos=[DOUBLE[i] for i in (0, 2, 1, 3)]),
    12: dict(BASE, kind='multi-ser', pos=DOUBLE, J=1),
    13: dict(BASE, kind='indep', pos=around(3, .05)),
    14: dict(BASE, kind='coax', pos=[(0., 0.)], r_out=.055),
    15: dict(BASE, kind='coax', pos=[(0., 0.)], r_out=.055, k_g=1.2),
    16: dict(BASE, kind='coax', pos=[(0.01, 0.)], r_out=.055),
    17: dict(BASE, kind='multi-par', pos=DOUBLE, J=0),
    18: dict(BASE, J=0),
    # vectors of radii and resistances in direct calls
    19: dict(BASE, r_out=[.0134, .0150], f=[1., 1.3]),
    20: dict(BASE, r_out=[.0150, .0134], f=[1., 1.3]),
    21: dict(BASE, r_out=[.0134, .0150], f=[1.3, 1.]),
    22: dict(BASE, pos=[(.05, 0.), (-.05 * (1. + 2e-4), 0.)]),
    23: dict(BASE, k_s=2.0004),
}
RFP = {1: 0.1, 2: 0.13, 3: 0.1003}
RFF = {1: .15, 2: .2, 3: .1503}


def make(g, r, pos=None):
    d = GEOS[g]
    kw = dict(k_s=d['k_s'], k_g=d['k_g'], J=d['J'])
    pos = list(d['pos']) if pos is None else pos
    b = gt.boreholes.Borehole(100., 4., d['r_b'], 0., 0.)
    ro = d['r_out'] if np.isscalar(d['r_out']) else d['r_out'][0]
    if d['kind'] == 'coax':
        return P.Coaxial(pos, np.array([.0221, .0487]), np.array([.025, ro]), b, kw['k_s'], kw['k_g'], RFF[r], RFP[r], kw['J'])
    a = (pos, .0108, ro, b, kw['k_s'], kw['k_g'], RFP[r])
    if d['kind'] == 'single':
        return P.SingleUTube(*a, kw['J'])
    n = len(pos) // 2
    if d['kind'] == 'indep':
        return P.IndependentMultipleUTube(*a, n, kw['J'])
    return P.MultipleUTube(*a, n, 'series' if d['kind'] == 'multi-ser' else 'parallel', kw['J'])


def observe(p):
    """Public results that depend on the resistances."""
    n = p.nInlets
    m, tin = (.3, 10.) if n == 1 else (np.linspace(.3, .5, n), np.linspace(10., 12., n))
    Tb = np.array([2., 5.])
    v = [p.get_outlet_temperature(tin, Tb, m, 4000.), p.get_temperature(np.array([20., 60.]), tin, Tb, m, 4000.)]
    if n == 1:
        v.append(50. * p.effective_borehole_thermal_resistance(m, 4000.))
    return np.concatenate([np.ravel(x) for x in v]).astype(float)


def arguments(g, r):
    """Positions, radii and resistances of a direct call, as arrays."""
    d = GEOS[g]
    ro = d['r_out'] if np.isscalar(d['r_out']) else np.array(d['r_out'])
    R = RFP[r] if 'f' not in d else RFP[r] * np.array(d['f'])
    return [np.array(x) for x in d['pos']], ro, R


def direct(g, r, a=None):
    d = GEOS[g]
    pos, ro, R = a or arguments(g, r)
    return P.thermal_resistances(pos, ro, d['r_b'], d['k_s'], d['k_g'], R, J=d['J'])


def conductance(R, Rd):
    return np.concatenate([np.ravel(R), np.ravel(1. / Rd) / 100.])


def reference(a):
    """In a process of its own."""
    g, r = a
    try:
        v = observe(make(g, r)).tolist()
    except Exception as e:
        v = None
    return v


def reference2(a):
    try:
        return conductance(*direct(*a)).tolist()
    except Exception:
        return None


def session(ev, calls, geos, refs):
    S1 = {}
    for g, r, what, v in refs:
        s = scale_of(v)
        S1[(g, r, what)] = s
        ev.append({'ev': 'Ref', 'g': g, 'r': r, 'what': what, 'v': ints(v, s)})
    obj, par = {}, {}
    held = None
    mine = {}
    for q in calls:
        if q[0] == 'New':
            _, o, g, r = q
            g = geos[g - 1]
            # the caller keeps its position arrays and changes them later
            pos = [np.array(x) for x in GEOS[g]['pos']]
            obj[o] = make(g, r, pos)
            par[o] = [g, r]
            mine[o] = pos
            ev.append({'ev': 'New', 'o': o, 'g': g, 'r': r})
        elif q[0] == 'Update':
            _, o, r = q
            p = obj[o]
            if isinstance(p, P.Coaxial):
                p.update_thermal_resistances(RFF[r], RFP[r])
            else:
                p.update_thermal_resistances(RFP[r])
            par[o][1] = r
            ev.append({'ev': 'Update', 'o': o, 'r': r})
        elif q[0] == 'Call':
            _, g, r = q
            g = geos[g - 1]
            a = arguments(g, r)
            R, Rd = direct(g, r, a)
            held = (R, Rd, a, r)
            ev.append({'ev': 'Call', 'g': g, 'r': r, 'v': ints(conductance(R, Rd), S1[(g, r, 'call')])})
        elif q[0] == 'Spoil':
            # changes everything the caller holds; the arguments become those
            # of another geometry of the session
            for x in held[:2]:
                x *= 1.7
            a = arguments(geos[len(ev) % len(geos)], held[3])
            for x, y in zip(held[2][0], a[0]):
                x[:] = y
            for x, y in zip(held[2][1:], a[1:]):
                if isinstance(x, np.ndarray):
                    x[:] = y
            ev.append({'ev': 'Spoil'})
        else:
            o = q[1]
            if len(ev) % 5 == 0:
                import matplotlib.pyplot as plt
                obj[o].visualize_pipes()
                plt.close('all')
            ev.append({'ev': 'Query', 'o': o, 'v': ints(observe(obj[o]), S1[(*par[o], 'obj')])})


FUNCS = {'session': session}
CFG = '''CONSTANTS Objs = {1, 2}
Geos = {1, 2}
Vals = {1, 2}
Mut = "%s"
Gen = 0
SPECIFICATION Spec
INVARIANT Own
CONSTRAINT Bound
'''
GEN = '''CONSTANTS Objs = {%s}
Geos = {1, 2, 3}
Vals = {%s}
Mut = "none"
Gen = %d
SPECIFICATION Spec
INVARIANT Own
CONSTRAINT Emit
'''


def main(chk):
    # results of fresh processes, before anything is calculated in this one
    keys = [(g, r) for g in GEOS for r in RFP]
    with mp.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
        a = pool.map(reference, keys, chunksize=1)
        c = pool.map(reference2, keys, chunksize=1)
    refs = {}
    for k, x, y in zip(keys, a, c):
        refs[(*k, 'obj')] = x
        refs[(*k, 'call')] = y
    if all(v is None for v in refs.values()):
        raise Machinery('no reference could be calculated')
    chk.design('Resist', CFG % 'none', label='Resist', workers=4)
    for m in ('key', 'key-value', 'alias-in', 'alias-out', 'stale'):
        chk.design('Resist', CFG % m, expect={'Own'}, label='Resist with ' + m)
    d = 45
    n = 60 if chk.quick else 500
    beh = chk.behaviours('Resist', GEN % ('1, 2, 3', '1, 2, 3', d), simulate=(n, d + 1), label='Resist behaviours')
    beh += chk.behaviours('Resist', GEN % ('1, 2, 3', '1, 3', d), simulate=(n, d + 1), label='Resist narrow behaviours')
    # direct calls only
    calls = chk.behaviours('Resist', GEN % ('', '1, 3', d), simulate=(n // 2, d + 1), label='Resist call behaviours')
    calls = [b for b in calls if len(b) == d]
    beh = [b for b in beh if len(b) == d]
    rng = chk.rng
    rng.shuffle(beh)
    ts = []
    beh = beh[:130 if chk.quick else 1500]
    for i, b in enumerate(beh + calls[:40 if chk.quick else 500]):
        # geometries that differ little
        if i >= len(beh) and i % 2:
            geos = [19, 20, 21]
        elif i % 3 == 0:
            geos = rng.sample(list(GEOS), 3)
        elif i % 3 == 1:
            geos = [1] + rng.sample([x for x in GEOS if x not in (1, 10, 11, 12, 13, 14, 15, 16, 17, 19, 20, 21)], 2)
        else:
            geos = rng.choice([rng.sample([10, 11, 12, 17], 3), [14, 15, 16], [19, 20, 21], [1, 7, 8], [1, 9, 22]])
        need = [(g, r, w, refs[(g, r, w)]) for g in geos for r in RFP for w in ('obj', 'call')]
        if any(x[3] is None for x in need):
            # not even a single construction works: report it through a session that fails
            need = [x if x[3] is not None else (*x[:3], [0.]) for x in need]
        ts.append((f'session-{i}', 'session', dict(calls=b, geos=geos, refs=need)))
    eps = chk.run(FUNCS, ts)
    chk.bounds = {'behaviours': f'{len(ts)} sequences of {d} steps on 3 objects of {len(GEOS)} geometries'}
    chk.validate('TraceResist', eps)
