"""C21: flow regimes, resistances of pipes and fluids, temperature fields around pipes."""
import math
import random
import numpy as np
from tv import load_repo, ints, scale_of, attempt
from models import around
gt = load_repo()
P = gt.pipes
T = P.PipeType


def gnielinski(re, pr, f):
    return f / 8 * (re - 1e3) * pr / (1 + 12.7 * math.sqrt(f / 8) * (pr ** (2 / 3) - 1))


def colebrook(re, e):
    f = .02
    for _ in range(200):
        f = (-2 * math.log10(e / 3.7 + 2.51 / (re * math.sqrt(f)))) ** -2
    return f


def ramp(ev, seed):
    rng = random.Random(seed)
    pr = 10. ** rng.uniform(.6, 2.3)
    k, rho, mu = rng.uniform(.3, .7), rng.uniform(900., 1100.), 10. ** rng.uniform(-3.2, -2.)
    cp = pr * k / mu
    eps = 10. ** rng.uniform(-7, -3.5)
    ann = rng.random() < .5
    ri = rng.uniform(.005, .03)
    ro = ri * rng.uniform(1.15, 3.) if ann else None
    D = 2 * (ro - ri) if ann else 2 * ri
    A = math.pi * (ro ** 2 - ri ** 2) if ann else math.pi * ri ** 2
    res = sorted([230000 + 170 * g for g in [0, 1, 2, 998, 999, 1000] + [rng.randint(0, 1000) for _ in range(8)]]
                 + [round(100 * 10. ** rng.uniform(0., 3.36)) for _ in range(4)] + [round(100 * 10. ** rng.uniform(3.61, 5.3)) for _ in range(6)])
    flow = lambda re: re / 100. * mu / D * A
    if ann:
        h = lambda m: P.convective_heat_transfer_coefficient_concentric_annulus(m, ri, ro, mu, rho, k, cp, eps)
        lams = [3.66 + 1.2 * (ri / ro) ** -.8, 3.66 + 1.2 * (ri / ro) ** .5]
    else:
        h = lambda m: [P.convective_heat_transfer_coefficient_circular_pipe(m, ri, mu, rho, k, cp, eps)]
        lams = [3.66]
    # friction in a circular pipe at the same Reynolds number
    ff = lambda re: float(P.fluid_friction_factor_circular_pipe(re / 100. * mu / D * math.pi * D ** 2 / 4, D / 2, mu, rho, eps))
    fn = lambda re: float(P.fluid_friction_factor_circular_pipe(-re / 100. * mu / D * math.pi * D ** 2 / 4, D / 2, mu, rho, eps))
    f, fneg = [ff(r) for r in res], [fn(r) for r in res]
    # the friction factor that the code uses in the annulus (see KNOWN_FINDINGS)
    rc = [flow(r) * 4 / (math.pi * D * mu) for r in res]
    fann = [colebrook(x, eps / D) if x >= 2300 else 64 / x for x in rc]
    true = [colebrook(r / 100., eps / D) for r in res]
    hp, hn = [h(flow(r)) for r in res], [h(-flow(r)) for r in res]
    for i, lam in enumerate(lams):
        nu = np.array([float(x[i]) for x in hp]) * D / k
        nn = np.array([float(x[i]) for x in hn]) * D / k
        gn = [gnielinski(max(r / 100., 4e3), pr, x) for r, x in zip(res, true)]
        g2 = [gnielinski(max(r / 100., 4e3), pr, x) for r, x in zip(res, fann)]
        if ann:
            gn = [b if r < 400000 else a for r, a, b in zip(res, gn, g2)]
        fr = np.array(f)
        resid = [(1 / math.sqrt(x) + 2 * math.log10(eps / D / 3.7 + 2.51 / (r / 100. * math.sqrt(x)))) * math.sqrt(x) for x, r in zip(f, res)]
        ev.append({'ev': 'Ramp', 'annulus': ann, 're': res, 'f': ints(f, 1e8), 'fneg': ints(fneg, 1e8), 'fre': ints(fr * np.array(res) / 100., 1e5),
                   'res': ints(resid, 1e7), 'nu': ints(nu, 1e3), 'nuneg': ints(nn, 1e3), 'lam': round(lam * 1e3), 'gn': ints(gn, 1e3), 'gn2': ints(g2, 1e3),
                   'gnup': round(1e3 * gnielinski(4e3, pr, colebrook(4e3, eps / D)))})
    for r in (230000, 400000):
        a, b = h(flow(r) * (1 - 1e-7)), h(flow(r) * (1 + 1e-7))
        ev.append({'ev': 'Limit', 'below': ints(np.array(a) * D / k, 1e3), 'above': ints(np.array(b) * D / k, 1e3)})


KINDS = {'single': T.SINGLE_UTUBE, 'series': T.DOUBLE_UTUBE_SERIES, 'parallel': T.DOUBLE_UTUBE_PARALLEL,
         'coax-in': T.COAXIAL_ANNULAR_IN, 'coax-out': T.COAXIAL_ANNULAR_OUT}


def resist(ev, seed):
    rng = random.Random(seed)
    fl = gt.media.Fluid(rng.choice(['water', 'MPG', 'MEG', 'MMA', 'MEA']), rng.uniform(10., 30.), rng.uniform(2., 30.))
    eps = 10. ** rng.uniform(-6.5, -4.)
    for kind, pt in KINDS.items():
        m = 10. ** rng.uniform(-2, .3)
        a = (fl.mu, fl.rho, fl.k, fl.cp, eps)
        cond = lambda i, o, k: math.log(o / i) / (2 * math.pi * k)
        if kind.startswith('coax'):
            i_in = rng.uniform(.008, .015)
            i_out = i_in * rng.uniform(1.05, 1.3)
            o_in = i_out * rng.uniform(1.2, 1.8)
            o_out = o_in * rng.uniform(1.05, 1.2)
            ki, ko = rng.uniform(.2, .5), rng.uniform(.3, 2.)
            r_in, r_out, k_p = [i_in, o_in], [i_out, o_out], [ki, ko]
            if kind == 'coax-in':
                r_in, r_out, k_p = r_in[::-1], r_out[::-1], k_p[::-1]
            r_in, r_out, k_p = [rng.choice([tuple, list, np.array])(x) for x in (r_in, r_out, k_p)]
            ha = P.convective_heat_transfer_coefficient_concentric_annulus(m, i_out, o_in, *a)
            x = {'cond_out': cond(o_in, o_out, ko), 'cond_in': cond(i_in, i_out, ki),
                 'film': 1 / (P.convective_heat_transfer_coefficient_circular_pipe(m, i_in, *a) * 2 * math.pi * i_in),
                 'film_ann_in': 1 / (ha[0] * 2 * math.pi * i_out), 'film_ann_out': 1 / (ha[1] * 2 * math.pi * o_in)}
        else:
            r_in = rng.uniform(.008, .02)
            r_out, k_p = r_in * rng.uniform(1.05, 1.4), rng.uniform(.2, .6)
            film = lambda q: 1 / (P.convective_heat_transfer_coefficient_circular_pipe(q, r_in, *a) * 2 * math.pi * r_in)
            x = {'cond_out': cond(r_in, r_out, k_p), 'film': film(m), 'film_half': film(m / 2)}
        rfp, err = attempt(P.fluid_to_pipe_thermal_resistance, pt, m, r_in, r_out, k_p, eps, fl)
        neg, _ = attempt(P.fluid_to_pipe_thermal_resistance, pt, -m, r_in, r_out, k_p, eps, fl)
        rff, errff = attempt(P.fluid_to_fluid_thermal_resistance, pt, m, r_in, r_out, k_p, eps, fl)
        n = lambda v: float('nan') if v is None else float(v)
        s = scale_of([v for v in x.values()])
        ev.append({'ev': 'Resist', 'kind': kind, 'parts': {c: round(v * s) for c, v in x.items()}, 'rfp': ints(n(rfp), s), 'rfpneg': ints(n(neg), s),
                   'err': err, 'rff': ints(n(rff), s), 'errff': errff})


def fluids(ev, seed):
    rng = random.Random(seed)
    names = rng.choice([('MPG', 'PropyleneGlycol', 'mpg'), ('MEG', 'EthyleneGlycol', 'meg'), ('MMA', 'MethylAlcohol', 'methylalcohol'),
                        ('MEA', 'EthylAlcohol', 'ETHYLALCOHOL'), ('Water', 'WATER', 'water')])
    c, t = (0. if names[0] == 'Water' else rng.uniform(5., 35.)), rng.uniform(2., 35.)
    fs = [gt.media.Fluid(n, c, T=t) for n in names]
    f = fs[0]
    v = lambda g: [g.rho, g.mu, g.nu, g.cp, g.rhoCp, g.k, g.Pr, g.T_C]
    ev.append({'ev': 'Fluid', 'nu': ints(f.nu * f.rho / f.mu, 1e7), 'rhocp': ints(f.rhoCp / (f.rho * f.cp), 1e7), 'pr': ints(f.Pr * f.k / (f.mu * f.cp), 1e7),
               'alias': all(v(g) == v(f) for g in fs), 'positive': all(x > 0 for x in v(f))})
    # a table of fluids, one row for each
    rows = [gt.media.Fluid(rng.choice(['water', 'MPG', 'MEG', 'MMA', 'MEA']), rng.uniform(5., 35.), *([rng.choice([5, 12.5, rng.uniform(2., 35.)])] if rng.random() < .8 else []))
            for _ in range(rng.randint(1, 4))]
    table, err = {}, None
    for g in rows:
        _, e = attempt(g.append_to_dict, table)
        err = err or e
    same = lambda x, y: abs(float(x) / y - 1.) < 1e-5
    ev.append({'ev': 'Table', 'err': err or '', 'n': len(rows), 'columns': [len(c) for c in table.values()],
               'values': [bool(all(len(table.get(k, [])) > i and same(table[k][i], getattr(g, k)) for k in ('T_C', 'rho', 'mu', 'nu', 'cp', 'rhoCp', 'k', 'Pr')))
                          for i, g in enumerate(rows)] if not err else [],
               'text': [bool(all(any(x.split('=')[0].strip() == k and same(x.split('=')[1], getattr(g, k)) for x in repr(g).splitlines() if '=' in x)
                                 for k in ('T_C', 'rho', 'mu', 'nu', 'cp', 'rhoCp', 'k', 'Pr'))) for g in rows]})
    for n in ('brine', '', 'MG'):
        ev.append({'ev': 'Bad', 'err': attempt(gt.media.Fluid, n, 20.)[1]})


def temperatures(ev, seed):
    """Temperatures around the pipes of a borehole."""
    rng = random.Random(seed)
    n, J = rng.choice([1, 1, 2, 3]), rng.randint(0, 4)
    r_b = .075
    if rng.random() < .5:
        pos = around(n, rng.uniform(.038, .055), rng.uniform(-3., 3.))
    else:
        pos = []
        while len(pos) < 2 * n:
            p = (rng.uniform(-.055, .055), rng.uniform(-.055, .055))
            if math.hypot(*p) < .055 and all(math.dist(p, q) > .035 for q in pos):
                pos.append(p)
            elif rng.random() < .01:
                pos = []
    m = len(pos)
    # multipoles of all pipes shall converge
    room = min([r_b - math.hypot(*p) for p in pos] + [math.dist(p, q) / 2 for i, p in enumerate(pos) for q in pos[:i]])
    ro = room * rng.choice([.97, rng.uniform(.3, .95)])
    r_out = ro if rng.random() < .5 else np.full(m, ro)
    k_s, k_g = rng.uniform(.5, 4.), rng.uniform(.5, 3.)
    rfp = rng.uniform(.01, .2)
    R_fp = rfp if rng.random() < .5 else np.array([rng.uniform(.01, .2) for _ in range(m)])
    Rv = np.full(m, rfp) if np.isscalar(R_fp) else R_fp
    q = np.array([rng.uniform(-40., 60.) for _ in range(m)])
    q2 = np.array([rng.uniform(-40., 60.) for _ in range(m)])
    Tb = rng.uniform(-5., 20.)
    th = 2 * math.pi * np.arange(96) / 96
    ring = lambda x, y, r: (x + r * np.cos(th), y + r * np.sin(th))
    pts = [ring(0., 0., r_b * (1 - 1e-9)), ring(0., 0., r_b * (1 + 1e-9)), ring(0., 0., r_b * 2.), ring(0., 0., r_b * 7.)]
    pts += [ring(x, y, ro * (1 + 1e-9)) for x, y in pos]
    pts += [ring(x, y, ro * .7) for x, y in pos]
    X, Y = [np.concatenate([p[i] for p in pts]) for i in (0, 1)]
    kw = dict(eps=1e-10, it_max=500)
    tf, t, it, e = P.multipole(pos, r_out, r_b, k_s, k_g, R_fp, Tb, q, J, x_T=X, y_T=Y, **kw)
    t = np.asarray(t).reshape(-1, 96)
    tf2 = P.multipole(pos, r_out, r_b, k_s, k_g, R_fp, 0., 2 * q - q2, J, **kw)[0]
    tf1 = P.multipole(pos, r_out, r_b, k_s, k_g, R_fp, 0., q2, J, **kw)[0]
    R, Rd = P.thermal_resistances(pos, r_out, r_b, k_s, k_g, R_fp, J=J)
    s = scale_of(tf, t, tf2)
    mean = t.mean(axis=1)
    ev.append({'ev': 'Field', 'J': J, 'tf': ints(tf, s), 'rq': ints(R @ q + Tb, s), 'tf2': ints(tf2, s), 'lin': ints(2 * (np.asarray(tf) - Tb) - tf1, s),
               'inpipe': ints(t[4 + m:, 5], s), 'pipewall': ints(mean[4:4 + m] + q * Rv, s), 'wall': ints(mean[:2], s), 'tb': ints(Tb, s),
               'inside': ints(t[0], s), 'outside': ints(t[1], s), 'ground': ints(mean[2:4], s),
               'line': ints([Tb - q.sum() / (2 * math.pi * k_s) * math.log(f) for f in (2., 7.)], s), 'tol': 2000})


def annulus(ev):
    """The friction factor in an annulus is that of its Reynolds number."""
    ri, ro, mu, rho, k, cp, eps = .0221, .0487, 1.3e-3, 1000., .58, 4200., 1e-6
    D, A = 2 * (ro - ri), math.pi * (ro ** 2 - ri ** 2)
    re = 10000.
    h = P.convective_heat_transfer_coefficient_concentric_annulus(re * mu / D * A, ri, ro, mu, rho, k, cp, eps)
    nu = gnielinski(re, cp * mu / k, colebrook(re, eps / D))
    ev.append({'ev': 'Finding', 'what': 'AnnulusFriction', 'ok': bool(abs(h[0] * D / k / nu - 1) < 1e-4)})


FUNCS = {'ramp': ramp, 'resist': resist, 'fluids': fluids, 'temperatures': temperatures, 'annulus': annulus}
CFG = '''CONSTANTS Step = %d
Top = %d
Mut = "%s"
SPECIFICATION Spec
INVARIANTS InvContinuous InvMagnitude InvMonotone InvLimits
'''


def main(chk):
    rng = chk.rng
    chk.design('MCFlow', CFG % (170, 600000, 'none'), label='Flow')
    for m in ('sign', 'gap', 'turn', 'late'):
        chk.design('MCFlow', CFG % (170, 500000, m), expect={'InvContinuous', 'InvMagnitude', 'InvMonotone', 'InvLimits'}, label='Flow with ' + m)
    n = 1 if chk.quick else 15
    ts = [(f'ramp-{i}', 'ramp', dict(seed=rng.getrandbits(30))) for i in range(120 * n)]
    ts += [(f'resist-{i}', 'resist', dict(seed=rng.getrandbits(30))) for i in range(60 * n)]
    ts += [(f'fluid-{i}', 'fluids', dict(seed=rng.getrandbits(30))) for i in range(60 * n)]
    ts += [(f'field-{i}', 'temperatures', dict(seed=rng.getrandbits(30))) for i in range(80 * n)]
    ts.append(('annulus-friction', 'annulus', {}))
    eps = chk.run(FUNCS, ts)
    chk.bounds = {'flow': 'Reynolds numbers from 1 to 2*10^5, circular pipes and annuli, 5 fluids, 2 to 6 pipes, up to 4 multipoles'}
    chk.validate('TraceFlow', eps)
