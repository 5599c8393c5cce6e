"""C13: solutions of fields whose boreholes are exchanged and moved."""
import math
import random
import numpy as np
from tv import ints, scale_of, shaped
import fields as fl
import models

OPT = {'detailed': {}, 'similarities': {'disTol': 1e-7}, 'equivalent': {'disTol': 1e-7}}


def dims(rng, n, rad):
    out = []
    r = rng.choice([.05, .075, .1])
    if n > 1 and rng.random() < .5:
        # boreholes that differ by their buried depth only, or by nothing
        H = float(rng.choice([60, 100, 150]))
        return [[H, D, r] for D in rng.choice([[1., 6., 3.5], [2., 2., 8.], [0., 5., 2.]])[:n]]
    for _ in range(n):
        out.append([float(rng.choice([60, 85, 100, 120, 150])), rng.choice([0., 1., 2.5, 4., 8.]),
                    rng.choice([.06, .075, .09]) if rad else r])
    return out


def direction(b):
    t, o = (b[5], b[6]) if len(b) > 5 else (0., 0.)
    return np.array([math.sin(t) * math.cos(o), math.sin(t) * math.sin(o), math.cos(t)])


def gap(a, b):
    u = np.linspace(0., 1., 40)
    p, q = [np.array([x[3], x[4], x[1]])[:, None] + x[0] * u * direction(x)[:, None] for x in (a, b)]
    return float(np.sqrt(((p[:, :, None] - q[:, None, :]) ** 2).sum(0)).min())


def lattice(rng, f, tilted, jitter=None, rad=True, spacing=None):
    """Boreholes of an abstract field."""
    d = spacing or (rng.uniform(7., 11.) if tilted else rng.uniform(4., 9.))
    D = dims(rng, max(b['d'] for b in f), rad)
    for _ in range(200):
        turn, x0, y0 = rng.uniform(-3., 3.), rng.uniform(-50., 50.), rng.uniform(-50., 50.)
        if jitter is None:
            jit = rng.choice([0., 0., .3])
        else:
            jit = jitter
        til = [rng.uniform(.05, .35) for _ in D]
        out = []
        for b in f:
            u, v = (b['x'] + rng.uniform(-jit, jit)) * d, (b['y'] + rng.uniform(-jit, jit)) * d
            o = list(D[b['d'] - 1]) + [x0 + u * math.cos(turn) - v * math.sin(turn), y0 + u * math.sin(turn) + v * math.cos(turn)]
            if tilted and b['a'] >= 0:
                o += [til[b['d'] - 1], turn + b['a'] * math.pi / 2]
            out.append(o)
        if all(gap(out[i], out[j]) > (6. if tilted else 1.) for i in range(len(out)) for j in range(i)):
            return out
        d += .3
    raise ValueError('no field')


def times(rng, F, k=None):
    thr = max(b[2] for b in F['b']) ** 2 / (25. * F['alpha'])
    t = [10. ** rng.uniform(4.5, 10.5) for _ in range(k or rng.randint(1, 3))]
    if rng.random() < .5:
        t += [thr * rng.uniform(.1, 1.) for _ in range(rng.randint(1, 2))]
    return sorted(t)


def circuits(F):
    """Inlet borehole of every circuit."""
    return [i for i, p in enumerate(F['c']) if p == -1]


def configure(rng, beh, bc, method, tilted):
    F = {'bc': bc, 'method': method, 'alpha': rng.choice([1e-6, 5e-7, 2e-6]), 'b': lattice(rng, beh['f'], tilted)}
    n = len(F['b'])
    eq = method == 'equivalent'
    w = rng.randrange(4)
    if eq or w < 2:
        F['n'] = rng.randint(1, 4)
        if rng.random() < .4:
            F['ratios'] = [float(x) for x in models.ratios(rng, F['n'])]
        elif rng.random() < .4:
            F['ratios'] = None
    else:
        F['n'] = [rng.randint(1, 3) for _ in range(n)]
        F['ratios'] = [[float(x) for x in (models.ratios(rng, k) if w == 2 else np.full(k, 1. / k))] for k in F['n']]
    F['opts'] = dict(OPT[method])
    if not tilted and rng.random() < .2 and not eq:
        F['opts']['approximate_FLS'] = True
        if rng.random() < .7:
            F['opts']['nFLS'] = rng.randint(2, 24)
    if eq and rng.random() < .5:
        F['opts']['kClusters'] = rng.randint(0, 4)
    if tilted:
        F['opts']['mQuad'] = 51
    F['t'] = times(rng, F)
    if bc == 'MIFT':
        F['k_s'], F['cp'] = rng.uniform(1., 3.), rng.choice([4000., 3600.])
        c = list(beh['c'])
        if eq:
            c = [-1] * n
        F['c'] = c
        kinds = ['single', 'multi-par-2', 'multi-ser-2', 'coax-in', 'coax-out']
        k = rng.choice(kinds)
        mixed = not eq and rng.random() < .4
        F['kinds'] = [rng.choice(kinds) if mixed else k for _ in range(n)]
        if any(b[2] < .075 for b in F['b']):
            for b in F['b']:
                b[2] = max(b[2], .075)
        nc = len(circuits(F))
        if eq:
            # the same flow and pipes in all boreholes
            for b in F['b']:
                b[2] = F['b'][0][2]
            F['m'] = rng.uniform(.1, .5) * nc
        elif rng.random() < .4:
            F['m'] = rng.uniform(.1, .6) * nc
        else:
            F['mb'] = [rng.choice([.1, .2, .35, .5]) for _ in range(nc)]
            if rng.random() < .2:
                F['mb'] = [-x for x in F['mb']]
    return F


def solution(F, g=None):
    g = g or fl.build(F)
    n, nt = len(F['b']), np.size(F['t'])
    Q, T = shaped(fl.rates(F, g), (n, nt)), shaped(fl.temperatures(F, g), (n, nt))
    p = fl.profiles(F, g)
    return shaped(g.gFunc, (nt,)), Q, T, [x[1] for x in p], [x[3] for x in p]


def program(ev, seed, beh, bc, method, tilted):
    rng = random.Random(seed)
    F = configure(rng, beh, bc, method, tilted)
    n = len(F['b'])
    org = list(range(1, n + 1))
    sc = None

    def record(op):
        nonlocal sc
        g, Q, T, sq, st = solution(F)
        if sc is None:
            sc = scale_of(g, T), scale_of(Q)
        ev.append({'ev': 'Op' if op else 'Start', 'n': n, 'org': list(org), 'con': list(F.get('c', [-1] * n)), 'tol': 200 if tilted else 60,
                   'g': ints(g, sc[0]), 'q': ints(Q, sc[1]), 't': ints(T, sc[0]),
                   'sq': [ints(x, sc[1]) for x in sq], 'st': [ints(x, sc[0]) for x in st], **op})
    if 'c' not in F:
        F['c'] = [-1] * n
    record({})
    for o in beh['ops']:
        k, b = o['op'], F['b']
        if k == 'swap':
            i, j = o['i'] - 1, o['j'] - 1
            sig = {i: j, j: i}
            ent = circuits(F)
            for s in (b, org) + tuple(F[x] for x in ('kinds',) if x in F) + \
                    ((F['n'],) if isinstance(F['n'], list) else ()) + \
                    ((F['ratios'],) if isinstance(F.get('ratios'), list) and isinstance(F['ratios'][0], list) else ()):
                s[i], s[j] = s[j], s[i]
            old = list(F['c'])
            F['c'] = [old[sig.get(q, q)] for q in range(n)]
            F['c'] = [sig.get(p, p) for p in F['c']]
            if 'mb' in F:
                m = {sig.get(e, e): x for e, x in zip(ent, F['mb'])}
                F['mb'] = [m[e] for e in circuits(F)]
        elif k == 'move':
            dx, dy = rng.uniform(-800., 800.), rng.uniform(-800., 800.)
            for x in b:
                x[3] += dx
                x[4] += dy
        elif k == 'turn':
            a = rng.choice([math.pi / 2, math.pi, rng.uniform(-4., 4.)])
            for p in b:
                x, y = p[3:5]
                p[3:5] = x * math.cos(a) - y * math.sin(a), x * math.sin(a) + y * math.cos(a)
                if len(p) > 5:
                    p[6] += a
        else:
            a = rng.choice([0., math.pi / 2, rng.uniform(-4., 4.)])
            for p in b:
                x, y = p[3:5]
                p[3:5] = x * math.cos(2 * a) + y * math.sin(2 * a), x * math.sin(2 * a) - y * math.cos(2 * a)
                if len(p) > 5:
                    p[6] = 2 * a - p[6]
        record(o)


FUNCS = {'program': program}
CFG = '''CONSTANTS NB = %d
NX = %d
NY = %d
NDim = %d
Dirs <- %s
NOps = %d
MinOps = %d
Mut = "%s"
Gen = %s
SPECIFICATION Spec
INVARIANTS %s
'''
INV = 'InvAccept InvFeeds InvFlow InvViews'
MUTS = {'feed': 'InvAccept', 'name': 'InvAccept', 'flow': 'InvFlow', 'turn': 'InvViews', 'mirror': 'InvViews'}


def main(chk):
    q = chk.quick
    chk.design('MCFields', CFG % (3, 1, 1, 1, 'DirsAll', 1, 0, 'none', 'FALSE', INV), label='MCFields (all directions)')
    chk.design('MCFields', CFG % (3, 1, 1, 1 if q else 2, 'DirsVert', 3, 0, 'none', 'FALSE', INV), label='MCFields (exchanges)', timeout=700)
    if not q:
        chk.design('MCFields', CFG % (4, 1, 1, 1, 'DirsVert', 2, 0, 'none', 'FALSE', INV), label='MCFields (4 boreholes)', timeout=800, workers=4)
    for m, inv in MUTS.items():
        chk.design('MCFields', CFG % (3, 1, 1, 1, 'DirsAll', 2, 0, m, 'FALSE', INV), expect=INV.split(), label=f'MCFields, wrong {m}')
    n = 60 if q else 1200
    tasks = []
    for tilted in (False, True):
        beh = chk.behaviours('MCFields', CFG % (5 if tilted else 6, 2, 2, 2, 'DirsMany', 3, 2, 'none', 'TRUE', 'Emit'),
                             simulate=(n * 2, 60), label='MCFields (programs)')
        beh = [b for b in beh if len(b['f']) > 1 or chk.rng.random() < .2]
        chk.rng.shuffle(beh)
        for k, b in enumerate(beh[:n if tilted else 2 * n]):
            bc = fl.BCS[k % 3]
            meth = fl.METHODS[k // 3 % (2 if tilted else 3)]
            tasks.append((f'{bc}-{meth}-{"tilted" if tilted else "vertical"}-{k}', 'program',
                          {'seed': chk.rng.getrandbits(40), 'beh': b, 'bc': bc, 'method': meth, 'tilted': tilted}))
    eps = chk.run(FUNCS, tasks, limit=120.)
    chk.validate('TraceField', eps)
    chk.bounds = {'programs': len(tasks), 'boreholes': '1 to 6', 'operations': '2 or 3 per program'}
    chk.assumptions = ['distances are merged only when equal within 1e-7 (disTol)']
