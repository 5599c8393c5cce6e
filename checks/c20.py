"""C20: g-functions and networks created from parameters.  The models they are
compared with are assembled following the terms computed by Static."""
import random
import numpy as np
from tv import load_repo, ints, scale_of, attempt
from models import around, ratios
gt = load_repo()
P = gt.pipes

NAMES = {'pipe': 'pipe_type_str', 'pos': 'pos', 'r_in': 'r_in', 'r_out': 'r_out', 'k_s': 'k_s', 'k_g': 'k_g', 'k_p': 'k_p',
         'fluid': 'fluid_str', 'pct': 'fluid_concentration_pct', 'eps': 'epsilon', 'm': 'm_flow_network', 'temp': 'fluid_temperature',
         'J': 'J', 'rev': 'reversible_flow'}
DEFAULT = {'fluid_temperature': 20., 'J': 2, 'reversible_flow': True}


def geometry(rng, n, incl):
    vec = lambda lo, hi: (rng.uniform(lo, hi) if rng.random() < .4 else [rng.uniform(lo, hi) for _ in range(n)])
    g = {'H': vec(60., 160.), 'D': vec(1., 6.), 'r_b': rng.choice([.075, .08]) if rng.random() < .5 else [.075] * n,
         'x': [7. * i + rng.uniform(-1., 1.) for i in range(n)], 'y': [rng.uniform(-5., 5.) for _ in range(n)]}
    if incl:
        g['tilt'] = vec(.02, .15)
        # heading away from each other
        g['orientation'] = [np.pi * (i < n / 2) for i in range(n)]
    if rng.random() < .4:
        g = {k: np.array(v) if isinstance(v, list) else v for k, v in g.items()}
    return g


def holes(g, n):
    at = lambda k, i: float(np.broadcast_to(np.asarray(g.get(k, 0.), dtype=float), (n,))[i])
    return [gt.boreholes.Borehole(at('H', i), at('D', i), at('r_b', i), at('x', i), at('y', i),
                                  tilt=at('tilt', i), orientation=at('orientation', i)) for i in range(n)]


def values(rng, pipe, n):
    ri, ro, kp = rng.uniform(.009, .0125), rng.uniform(.0135, .016), rng.uniform(.3, .6)
    if 'DOUBLE' in pipe:
        pos = around(2, rng.uniform(.04, .055), rng.uniform(0., 6.))
    elif 'COAX' in pipe:
        pos = (0., 0.) if rng.random() < .4 else (rng.uniform(-.01, .01), rng.uniform(-.01, .01))
        ri, ro, kp = [rng.uniform(.015, .02), rng.uniform(.045, .05)], [rng.uniform(.022, .028), rng.uniform(.053, .058)], [kp, rng.uniform(.3, 2.)]
        if pipe.endswith('IN'):
            ri, ro, kp = ri[::-1], ro[::-1], kp[::-1]
        c = rng.choice([list, tuple, np.array])
        ri, ro, kp = c(ri), c(ro), c(kp)
    else:
        pos = around(1, rng.uniform(.04, .055), rng.uniform(0., 6.))
        if rng.random() < .3:
            pos[1] = (pos[1][0] * .8, pos[1][1] * .8)
    m = 10. ** rng.uniform(-1.5, .2) * n * rng.choice([1, 1, -1])
    return {'pipe_type_str': pipe if rng.random() < .7 else pipe.lower(), 'pos': pos, 'r_in': ri, 'r_out': ro, 'k_s': rng.uniform(1., 3.),
            'k_g': rng.uniform(.7, 2.5), 'k_p': kp, 'fluid_str': rng.choice(['Water', 'MPG', 'MEG', 'MEA', 'MMA']),
            'fluid_concentration_pct': rng.uniform(10., 25.), 'epsilon': 10. ** rng.uniform(-6.5, -3.5), 'm_flow_network': m,
            'fluid_temperature': rng.choice([rng.uniform(1., 15.), rng.uniform(30., 60.)]), 'J': rng.choice([0, 1, 3]), 'reversible_flow': False}


def manual(plan, v, g, n):
    """The network of a plan."""
    def fluid(f):
        return gt.media.Fluid(v['fluid_str'], v['fluid_concentration_pct'], v['fluid_temperature'] if f['temp'] == 'given' else 20.)

    def ith(k, i):
        return v[k] if i == 0 else v[k][i - 1]
    ann = len(np.atleast_1d(v['r_in'])) == 2
    if ann:
        outer = 1 if v['r_out'][0] > v['r_out'][1] else 2
        r_inner_in, r_inner_out, r_outer_in = ith('r_in', 3 - outer), ith('r_out', 3 - outer), ith('r_in', outer)
    else:
        r_inner_in = v['r_in']

    def part(t):
        if 'k_p' in t:
            return np.log(ith('r_out', t['r_out']) / ith('r_in', t['r_in'])) / (2 * np.pi * ith('k_p', t['k_p']))
        f = fluid(t['fluid'])
        m = abs(v['m_flow_network']) / t['parts']
        if t['where'] == 'circle':
            h = P.convective_heat_transfer_coefficient_circular_pipe(m, r_inner_in, f.mu, f.rho, f.k, f.cp, v['epsilon'])
            return 1 / (h * 2 * np.pi * r_inner_in)
        h = P.convective_heat_transfer_coefficient_concentric_annulus(m, r_inner_out, r_outer_in, f.mu, f.rho, f.k, f.cp, v['epsilon'])
        h, r = (h[0], r_inner_out) if t['wall'] == 'inner' else (h[1], r_outer_in)
        return 1 / (h * 2 * np.pi * r)
    net = plan['net']
    b = holes(g, n)
    pipes = []
    for p in net['pipes']:
        J = v['J'] if p['J'] == 'given' else 2
        rev = v['reversible_flow'] if p['rev'] == 'given' else True
        h = b[p['hole'] - 1]
        fp, ff = sum(part(t) for t in p['fp']), sum(part(t) for t in p['ff'])
        if p['dir'].startswith('COAX'):
            pipes.append(P.Coaxial(v['pos'], np.array(v['r_in']), np.array(v['r_out']), h, v['k_s'], v['k_g'], ff, fp, J, rev))
        elif p['dir'] == 'SINGLE_UTUBE':
            pipes.append(P.SingleUTube(v['pos'], v['r_in'], v['r_out'], h, v['k_s'], v['k_g'], fp, J, rev))
        else:
            pipes.append(P.MultipleUTube(v['pos'], v['r_in'], v['r_out'], h, v['k_s'], v['k_g'], fp, 2,
                                         'parallel' if 'PARALLEL' in p['dir'] else 'series', J, rev))
    f = fluid(net['cp'])
    return gt.networks.Network(b, pipes, bore_connectivity=list(net['inl']), m_flow_network=v['m_flow_network'], cp_f=f.cp), f.cp


def responses(net, m, cp):
    r = []
    for x in (m, -m, 1.7 * m):
        for f in (net.coefficients_network_heat_extraction_rate, net.coefficients_outlet_temperature, net.coefficients_network_outlet_temperature):
            r.append(np.concatenate([np.asarray(a, dtype=float).ravel() for a in f(x, cp, 2)]))
    r.append(np.array([float(p.effective_borehole_thermal_resistance(abs(m), cp)) for p in net.p]))
    r.append(np.array([float(a) for b in net.b for a in (b.H, b.D, b.r_b, b.x, b.y, b.tilt, b.orientation)]))
    return r


def models(ev, seed, beh):
    rng = random.Random(seed)
    for step in beh:
        c, plan = step['c'], step['plan']
        n = len(c['inl'])
        parallel = all(i == -1 for i in c['inl'])
        method = rng.choice(['similarities', 'detailed'] + ['equivalent'] * parallel)
        incl = method != 'equivalent' and rng.random() < .25 and n > 1
        g = geometry(rng, n, incl)
        pipe = c['pipe'] if c['pipe'] != 'bad-pipe' else rng.choice(['SINGLE_UTUBE', 'COAXIAL_ANNULAR_IN'])
        v = values(rng, pipe, n)
        if c['pipe'] == 'bad-pipe':
            v['pipe_type_str'] = rng.choice(['TRIPLE_UTUBE', 'COAXIAL', 'U', ''])
        if method == 'equivalent':
            g['r_b'] = .075
        given = {a: b for a, b in v.items() if a not in {NAMES[k] for k in c['miss']}}
        k = rng.randint(1, 4)
        opts = {'nSegments': k, 'segment_ratios': ratios(rng, k) if rng.random() < .5 else None}
        if rng.random() < .3:
            opts['kind'] = 'slinear'
        if rng.random() < .3:
            opts['linear_threshold'] = 3600. * rng.choice([24., 200.])
        alpha = rng.uniform(.5, 1.5) * 1e-6
        time = np.sort(10. ** np.array([rng.uniform(5., 10.) for _ in range(rng.randint(1, 4))]))
        how = rng.choice(['array', 'array', 'float', 'later'])
        if how == 'float':
            time = float(time[0])
        bc = c['bc'] if c['bc'] != 'bad-bc' else rng.choice(['UNIFORM', '', 'MIFT ', 'UHTRR', 'T'])
        conn = {} if parallel and rng.random() < .5 else {'bore_connectivity': list(c['inl'])}

        def create():
            o = gt.gfunction.gFunction.from_static_params(
                alpha=alpha, method=method, options=dict(opts), boundary_condition=bc, **(dict(time=time) if how != 'later' else {}), **g, **given, **conn)
            return o.gFunc if how != 'later' else o.evaluate_g_function(time)
        a, err = attempt(create)
        b, merr = None, ''
        legal = plan['bc'] != 'none'
        if legal:
            def byhand():
                if plan['net']:
                    net, cp = manual(plan, v, g, n)
                    o = gt.gfunction.gFunction(net, alpha, method=method, boundary_condition=plan['bc'], m_flow_network=v['m_flow_network'], cp_f=cp, options=dict(opts))
                else:
                    o = gt.gfunction.gFunction(holes(g, n), alpha, method=method, boundary_condition=plan['bc'], options=dict(opts))
                return o.evaluate_g_function(time)
            b, merr = attempt(byhand)
        none = lambda x: [0.] if x is None else x
        s = scale_of(none(b))
        ev.append({'ev': 'Create', 'c': c, 'err': err, 'merr': merr, 'g': ints(np.ravel(none(a)), s), 'mg': ints(np.ravel(none(b)), s),
                   'shape': list(np.shape(a)) if a is not None else [], 'mshape': list(np.shape(b)) if b is not None else []})
        # the network alone
        if c['bc'] == 'MIFT' and not set(c['miss']) & {'pos', 'm', 'r_in', 'r_out', 'k_s', 'k_g', 'k_p', 'fluid', 'pct', 'eps', 'pipe'}:
            x = holes(g, n)
            if rng.random() < .5:
                x = gt.borefield.Borefield.from_boreholes(x)
            opt = {NAMES[k]: v[NAMES[k]] for k in ('J', 'rev') if k not in c['miss']}
            T = v['fluid_temperature'] if 'temp' not in c['miss'] else 20.
            w = {a: v[a] for a in ('pipe_type_str', 'pos', 'r_in', 'r_out', 'k_s', 'k_g', 'k_p', 'm_flow_network', 'epsilon', 'fluid_str')}
            m = v['m_flow_network']
            cp = gt.media.Fluid(v['fluid_str'], v['fluid_concentration_pct'], T).cp
            a, err = attempt(lambda: responses(gt.networks.Network.from_static_params(
                x, *w.values(), v['fluid_concentration_pct'], T, **opt, **conn), m, cp))
            b, merr = attempt(lambda: responses(manual(plan, v, g, n)[0], m, cp)) if legal else (None, '')
            sc = [scale_of(y) for y in b] if b is not None else []
            ev.append({'ev': 'Network', 'c': c, 'err': err, 'merr': merr,
                       'net': [ints(y, z) for y, z in zip(a or [], sc)], 'mnet': [ints(y, z) for y, z in zip(b or [], sc)]})


FUNCS = {'models': models}
CFG = '''SPECIFICATION Spec
CONSTANTS NB = %d
 NModels = %d
 MaxMiss = %d
 Mut = "%s"
 Gen = %s
INVARIANTS %s
'''
MUTS = {'any-bc': 'Rejects', 'late-eps': 'Rejects', 'default-temperature': 'Assembled', 'all-inlets': 'Assembled', 'sign': 'Assembled', 'annulus-first': 'Assembled',
        'one-hole': 'Assembled', 'drop-J': 'Assembled', 'drop-rev': 'Assembled', 'wall': 'Assembled', 'split': 'Assembled', 'inner-k': 'Assembled', 'drop-inlets': 'Assembled'}


def main(chk):
    q = chk.quick
    chk.design('MCStatic', CFG % (3, 1, 2 if q else 3, 'none', 'FALSE', 'Rejects Assembled'), label='MCStatic', workers=4)
    for m, inv in MUTS.items():
        chk.design('MCStatic', CFG % (2, 1, 1, m, 'FALSE', 'Rejects Assembled'), expect={inv}, label='MCStatic with ' + m)
    n = 120 if q else 2500
    beh = chk.behaviours('MCStatic', CFG % (4, 3, 2, 'none', 'TRUE', 'Rejects Assembled Emit'), simulate=(n + 30, 40), label='MCStatic (creations)')
    tasks = [(f'models-{k}', 'models', {'seed': chk.rng.getrandbits(40), 'beh': b}) for k, b in enumerate(beh[:n])]
    eps = chk.run(FUNCS, tasks, limit=90.)
    chk.validate('TraceStatic', eps)
    chk.bounds = {'creations': sum(len(b) for b in beh[:n]), 'boreholes': '1 to 4', 'parameters left out': 'up to 2'}
    chk.assumptions = ['films (C21), pipes (C02, C03), networks (C04) and solvers (C15) are judged by their own checks; here they only serve to assemble a model another way']
