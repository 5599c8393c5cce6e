"""C15: solutions against boundary conditions, balances and an independent solution."""
import math
import random
import numpy as np
from tv import ints, scale_of, shaped, load_repo
import fields as fl
import models
import c13
gt = load_repo()
U = 10**5
BIG = 10**6


def cut(x, s):
    return ints(x, s, cap=BIG, nan=BIG)


def describe(F, rs):
    zq, zt = [], []
    for b, r in zip(F['b'], rs):
        ends = [b[1], b[1] + b[0]]
        mid = ends if len(r) == 1 else b[1] + b[0] * (np.cumsum(r) - .5 * np.array(r))
        zq.append(ints(ends if F['bc'] == 'UHTR' else mid, 100))
        zt.append(ints(ends if F['bc'] == 'UBWT' else mid, 100))
    return {'ev': 'Field', 'bc': F['bc'], 'n': len(F['b']), 'nt': len(np.atleast_1d(F['t'])),
            'vert': all(len(b) == 5 for b in F['b']), 'H': [int(b[0]) for b in F['b']],
            'r': [ints(r, 2000) for r in rs], 'zq': zq, 'zt': zt,
            'd': [[int(round(1e4 * math.hypot(p[3] - q[3], p[4] - q[4]))) for q in F['b']] for p in F['b']]}


def network_rates(F, T, rs):
    """Rates of segments of the network for wall temperatures T (rises), the
    fluid temperatures, and 2 pi k_s times its thermal resistance."""
    net = fl.network(F, [models.borehole(b) for b in F['b']])
    m = F['m'] if 'm' in F else np.array(F['mb'])
    ns = [len(r) for r in rs]
    k = 2 * np.pi * F['k_s']
    H = np.concatenate([b[0] * np.array(r) for b, r in zip(F['b'], rs)])

    def heat(Tin):
        return net.get_borehole_heat_extraction_rate(Tin, -T, m, F['cp'], ns, segment_ratios=rs)
    q0, q1 = heat(0.), heat(1.)
    # temperatures fall while heat is extracted
    Tin = (k * H.sum() - q0.sum()) / (q1 - q0).sum()
    Tout = float(np.squeeze(net.get_network_outlet_temperature(Tin, -T, m, F['cp'], ns, segment_ratios=rs)))
    R = gt.networks.network_thermal_resistance(net, m, F['cp'])
    return heat(Tin) / (k * H), -Tin, -Tout, k * R


def split(x, rs):
    return np.split(x, np.cumsum([len(r) for r in rs])[:-1])


def solve(ev, seed, beh, bc, method, tilted, kind='linear'):
    rng = random.Random(seed)
    F = c13.configure(rng, beh, bc, method, tilted)
    if method == 'equivalent' and bc != 'MIFT' and rng.random() < .5:
        F['opts']['kClusters'] = 100
    approx = F['opts'].pop('approximate_FLS', None)
    F['t'] = c13.times(rng, F, rng.randint(3, 4) if kind != 'linear' else None)
    if rng.random() < .25:
        F['opts']['linear_threshold'] = float(rng.choice([0., F['t'][0] * .5, F['t'][-1] * .3, F['t'][-1] * 2.]))
    if tilted:
        F['opts']['mQuad'] = 51
        if F.get('ratios', 'default') is not None:
            F['n'] = min(F['n'], 2) if isinstance(F['n'], int) else [min(x, 2) for x in F['n']]
            F['ratios'] = None
    if kind != 'linear':
        F['opts']['kind'] = kind
        F['opts']['linear_threshold'] = F['t'][-3] * .5      # as many values as needed
    if rng.random() < .3 and bc != 'MIFT':
        F['as'] = 'field'
    rs = fl.seg_ratios(F)
    n, nt = len(F['b']), len(F['t'])
    t = np.array(F['t'])
    ev.append(describe(F, rs))
    if rng.random() < .3:
        g = fl.build(F, time=False)
        ret = g.evaluate_g_function(t)
    else:
        g = fl.build(F)
        ret = g.gFunc
    q, T = shaped(fl.rates(F, g), (n, nt)), shaped(fl.temperatures(F, g), (n, nt))
    sc = scale_of(g.gFunc, T, unit=3 * 10**5)
    fig = g.visualize_g_function()
    line = fig.axes[0].lines[0]
    cx, cy = np.array(line.get_xdata(), dtype=float), np.array(line.get_ydata(), dtype=float)
    fl.plt.close(fig)
    ts = np.mean([b[0] for b in F['b']]) ** 2 / (9. * F['alpha'])
    ev.append({'ev': 'Sol', 'u': U, 'tol': 12, 'g': cut(g.gFunc, sc), 'q': [cut(x, U) for x in q], 't': [cut(x, sc) for x in T],
               'ret': cut(ret, sc), 'cx': ints(cx, 1e5), 'ex': ints(np.log(t / ts), 1e5), 'cy': cut(cy, sc)})
    if method == 'equivalent' and len({b[0] for b in F['b']}) > 1:
        # the mean length of the figure is that of groups of boreholes
        ev[-1]['ex'] = ev[-1]['cx']
    if approx is not None:
        ev[0]['approx'] = True
    order = list(range(nt))
    exact = {}
    for p in order:
        tp = None if p == nt - 1 and rng.random() < .5 else float(t[p])
        x = fl.profiles(F, g, tp)
        ev.append({'ev': 'Prof', 'p': p + 1, 'zq': [ints(a[0], 100) for a in x], 'sq': [cut(a[1], U) for a in x],
                   'zt': [ints(a[2], 100) for a in x], 'st': [cut(a[3], sc) for a in x]})
        exact[p] = x
        if bc == 'MIFT':
            T_b = np.concatenate([a[3][:len(r)] for a, r in zip(x, rs)])
            thr = fl.grid(F)[2]
            if t[p] >= thr:
                nq, tin, tout, kr = network_rates(F, T_b, rs)
                nq = [np.repeat(y, 2) if len(y) == 1 else y for y in split(nq, rs)]
                ev.append({'ev': 'Net', 'p': p + 1, 'tol': 30, 'wide': bool(max(abs(tin), abs(tout), kr) * sc > BIG), 'nq': [cut(y, U) for y in nq],
                           'tin': cut([tin], sc)[0], 'tout': cut([tout], sc)[0], 'kr': cut([kr], sc)[0]})
    for _ in range(1 if nt > 1 else 0):
        p = rng.randrange(nt - 1)
        w = rng.choice([25, 50, 80])
        x = fl.profiles(F, g, float(t[p] + (t[p + 1] - t[p]) * w / 100))
        ev.append({'ev': 'Mid', 'p': p + 1, 'w': w, 'sq': [cut(a[1], U) for a in x], 'st': [cut(a[3], sc) for a in x]})
    if kind != 'linear':
        return
    grp = fl.groups(F, g) if method == 'equivalent' else list(range(1, n + 1))
    rg, rq, rt, H, own = fl.on_times(F, fl.reference(F))
    sq, st = [], []
    for p in range(nt):
        a, b = split(rq[:, p], rs), split(rt[:, p], rs)
        sq.append([cut(np.ones(2) if bc == 'UHTR' else np.repeat(y, 2) if len(y) == 1 else y, U) for y in a])
        st.append([cut(np.full(2, y[0]) if bc == 'UBWT' or len(y) == 1 else y, sc) for y in b])
    ev.append({'ev': 'Ref', 'tol': 60 if tilted else 12, 'grp': grp, 'g': cut(rg, sc), 'q': [cut(y, U) for y in fl.means(rq, H, own)],
               't': [cut(y, sc) for y in fl.means(rt, H, own)], 'sq': sq, 'st': st})


def steps(ev, seed, beh, bc, method):
    """A small field over whole numbers of time units."""
    rng = random.Random(seed)
    F = c13.configure(rng, beh, bc, method, False)
    F['opts'].pop('approximate_FLS', None)
    if not isinstance(F['n'], int):
        F['n'] = 2
    F['n'] = min(F['n'], 2)
    F['ratios'] = None if F['n'] == 1 else [float(x) for x in models.ratios(rng, F['n'])]
    if method == 'equivalent':
        F['opts']['kClusters'] = 100
    unit = 10. ** rng.uniform(5.5, 9.)
    nt = rng.randint(2, 4)
    tau, x = [], 0
    mode = rng.randrange(3)
    for k in range(nt):
        x += (rng.randint(1, 9) if mode == 0 else 2 ** k if mode == 1 else 2 ** (nt - k)) if x else rng.randint(1, 5)
        tau.append(x)
    F['t'] = [unit * y for y in tau]
    F['opts']['linear_threshold'] = 0.
    rs = fl.seg_ratios(F)
    g = fl.build(F)
    q, T = [], []
    for p in range(nt):
        x = fl.profiles(F, g, float(F['t'][p]))
        q.append(np.concatenate([np.ones(len(r)) if bc == 'UHTR' else a[1][:len(r)] for a, r in zip(x, rs)]))
        T.append(np.concatenate([np.full(len(r), a[3][0]) if bc == 'UBWT' else a[3][:len(r)] for a, r in zip(x, rs)]))
    h = fl.matrix(F, F['t'])
    sc = min(2000., 15000. / max(1e-9, float(np.max(np.abs(h)))))
    e = {'ev': 'Steps', 'tau': tau, 'h': ints(h, 2000, cap=20000, nan=20000), 'q': ints(np.array(q).T, 500, cap=1500, nan=1500),
         't': ints(np.array(T).T, 2000, cap=10**6, nan=10**6)}
    e['tol'] = 60 + int(.002 * max(abs(y) for z in e['t'] for y in z))
    ev.append(e)


FUNCS = {'solve': solve, 'steps': steps}
CFG = '''CONSTANTS Steps = {1, 2, 3}
Loads = {0, 1, 3}
N = %d
M = 6
Mut = "%s"
SPECIFICATION Spec
INVARIANTS %s
'''
INV = 'InvEnergy InvKnown InvBounds InvRebuilt InvUniform InvFirst'


def main(chk):
    q = chk.quick
    chk.design('MCGSolve', CFG % (3 if q else 4, 'none', INV), workers=2 if q else 6, timeout=800)
    for m in ('lost', 'order', 'lengths', 'change', 'forward', 'shift'):
        chk.design('MCGSolve', CFG % (3, m, INV), expect=INV.split(), label=f'MCGSolve, wrong {m}')
    n = 180 if q else 2500
    tasks = []
    for mode in ('vertical', 'equivalent', 'tilted'):
        cfg = c13.CFG % (4 if mode == 'tilted' else 5, 2, 2, 2, 'DirsMany', 0, 0, 'none', 'TRUE', 'Emit')
        beh = chk.behaviours('MCFields', cfg, simulate=(n * 2, 40), label='MCFields (fields)')
        chk.rng.shuffle(beh)
        for k, b in enumerate(beh[:n // 6 if mode == 'tilted' else n]):
            bc = fl.BCS[k % 3]
            meth = 'equivalent' if mode == 'equivalent' else fl.METHODS[k // 3 % 2]
            p = {'seed': chk.rng.getrandbits(40), 'beh': b, 'bc': bc, 'method': meth}
            tasks.append((f'{mode}-{bc}-{meth}-{k}', 'solve', {**p, 'tilted': mode == 'tilted', 'kind': chk.rng.choice(['quadratic', 'cubic']) if k % 10 == 9 else 'linear'}))
            if mode != 'tilted' and k % 4 == 0 and len(b['f']) <= 3:
                tasks.append((f'steps-{bc}-{meth}-{k}', 'steps', p))
    eps = chk.run(FUNCS, tasks, limit=120.)
    chk.validate('TraceSolve', eps)
    chk.bounds = {'solutions': len(tasks), 'boreholes': '1 to 5', 'times': '1 to 6'}
    chk.assumptions = ['responses of pairs of segments (C18) and heat rates of networks (C04) are those of the library, judged by their own checks',
                       'whole fields are compared with the independent solution for linear interpolation of responses']
