"""g-functions of described fields, seen through the public interface, and an
independent solution of the same problem."""
import math
import numpy as np
from tv import load_repo
import models
gt = load_repo()
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
plt.tight_layout = lambda *a, **k: None      # only the data of figures is read

BCS = ['UHTR', 'UBWT', 'MIFT']
METHODS = ['detailed', 'similarities', 'equivalent']


def network(F, bores):
    """Network of a field: pipes of the kinds of F, connected by F['c']."""
    pipes = [models.pipe(k, b, k_s=F.get('k_s', 2.), k_g=F.get('k_g', 1.), R_fp=F.get('R_fp', .1))
             for k, b in zip(F['kinds'], bores)]
    return gt.networks.Network(bores, pipes, bore_connectivity=F['c'])


def flows(F):
    """Keyword arguments of the flow rates: a float or list of total flow
    rates, or flow rates per circuit (list, or list of lists)."""
    k = {'cp_f': F['cp']}
    if 'm' in F:
        k['m_flow_network'] = F['m'] if isinstance(F['m'], float) else np.array(F['m'])
    else:
        k['m_flow_borehole'] = np.array(F['mb'])
    return k


def options(F):
    o = {'nSegments': F['n'] if isinstance(F['n'], int) else list(F['n']), 'disp': False, 'profiles': True}
    r = F.get('ratios', 'default')
    if r is None:
        o['segment_ratios'] = None
    elif r != 'default':
        o['segment_ratios'] = np.array(r) if not isinstance(r[0], list) else [np.array(x) for x in r]
    o.update(F.get('opts', {}))
    return o


def build(F, time=True, **over):
    F = {**F, **over}
    bores = [models.borehole(b) for b in F['b']]
    if F['bc'] == 'MIFT':
        obj, k = network(F, bores), flows(F)
    else:
        obj, k = bores, {}
        if F.get('as') == 'field':
            obj = gt.borefield.Borefield.from_boreholes(bores)
    t = F['t']
    t = (np.array(t, dtype=float) if isinstance(t, list) else float(t)) if time else None
    return gt.gfunction.gFunction(obj, F['alpha'], time=t, method=F['method'], boundary_condition=F['bc'],
                                  options=options(F), **k)


def curves(F, fig):
    """Curves of a figure of boreholes, by borehole (matched by position)."""
    a1, a2 = fig.axes[:2]
    marks = [l for l in a1.lines if l.get_marker() == 'o' and l.get_color() != 'k']
    if len(marks) != len(a2.lines):
        raise ValueError('curves and boreholes of the figure differ')
    r = [None] * len(F['b'])
    for mk, l in zip(marks, a2.lines):
        for x, y in zip(np.atleast_1d(mk.get_xdata()), np.atleast_1d(mk.get_ydata())):
            for i, b in enumerate(F['b']):
                if math.hypot(b[3] - x, b[4] - y) < 1e-6:
                    r[i] = (np.array(l.get_xdata(), dtype=float), np.array(l.get_ydata(), dtype=float))
    plt.close(fig)
    if any(x is None for x in r):
        raise ValueError('a borehole has no curve')
    return r


def rates(F, g, which=None):
    """Average heat extraction rate of each borehole at all times."""
    k = {} if which is None else {'which': [which]}
    return np.array([y for x, y in curves(F, g.visualize_heat_extraction_rates(**k))])


def temperatures(F, g, which=None):
    k = {} if which is None else {'which': [which]}
    return np.array([y for x, y in curves(F, g.visualize_temperatures(**k))])


def profiles(F, g, time=None, which=None):
    """Rates and temperatures of the segments of each borehole: [(z, Q, T)]."""
    k = {} if which is None else {'which': [which]}
    q = curves(F, g.visualize_heat_extraction_rate_profiles(time=time, **k))
    t = curves(F, g.visualize_temperature_profiles(time=time, **k))
    return [(a[1], a[0], b[1], b[0]) for a, b in zip(q, t)]


# ------------------------------------------------------------ reference
def seg_ratios(F):
    n = F['n'] if not isinstance(F['n'], int) else [F['n']] * len(F['b'])
    r = F.get('ratios', 'default')
    if r == 'default':
        return [gt.utilities.segment_ratios(k) if k > 2 else np.full(k, 1. / k) for k in n]
    if r is None:
        return [np.full(k, 1. / k) for k in n]
    if not isinstance(r[0], list):
        return [np.array(r)] * len(n)
    return [np.array(x) for x in r]


def segments(F):
    """Segments of all boreholes, and the borehole of each of them."""
    s, own = [], []
    for i, (b, r) in enumerate(zip(F['b'], seg_ratios(F))):
        H, D, rb, x, y = b[:5]
        t, o = (b[5], b[6]) if len(b) > 5 else (0., 0.)
        u = 0.
        for w in r:
            s.append(gt.boreholes.Borehole(H * w, D + u * math.cos(t), rb, x + u * math.sin(t) * math.cos(o),
                                           y + u * math.sin(t) * math.sin(o), tilt=t, orientation=o))
            own.append(i)
            u += H * w
    return s, np.array(own)


_mat = {}


def matrix(F, t):
    """Responses of segments, [receiver, source, time]."""
    s, _ = segments(F)
    return gt.heat_transfer.finite_line_source(np.asarray(t), F['alpha'], s, s, M=F.get('opts', {}).get('mQuad', 11))


def grid(F):
    """Times of the solution (from the threshold), number of linearized ones."""
    t = np.atleast_1d(np.array(F['t'], dtype=float))
    thr = F.get('opts', {}).get('linear_threshold')
    if thr is None:
        thr = max(b[2] for b in F['b']) ** 2 / (25. * F['alpha'])
    k = int(np.sum(t <= thr))
    return (np.concatenate([[thr], t[k:]]) if k else t), k, thr


def superpose(h, tau, Q):
    """Contribution of past heat extraction: the history of loads is rebuilt
    on the times of `tau` in reverse, keeping the energy extracted."""
    dt = np.diff(np.concatenate([[0.], tau]))
    n = len(tau)
    e = np.concatenate([np.zeros((len(Q), 1)), np.cumsum(Q * dt, axis=1)], axis=1)    # energy at tau
    edges = np.concatenate([[0.], np.cumsum(dt[::-1])])
    E = np.array([np.interp(edges, np.concatenate([[0.], tau]), x) for x in e])
    R = np.diff(E, axis=1) / dt[::-1]
    T = np.zeros(len(Q))
    for k in range(n):
        d = R[:, k] - (R[:, k - 1] if k else 0.)
        T += h[:, :, n - 1 - k] @ d
    return T


def reference(F, flow=None):
    """Solution at grid times: g, Q [segment, time], T [segment, time]."""
    tau, _, _ = grid(F)
    s, own = segments(F)
    n = len(s)
    H = np.array([x.H for x in s])
    h = matrix(F, tau)
    dts = np.diff(np.concatenate([[0.], tau]))
    if F['bc'] == 'UHTR':
        T = h.sum(axis=1)
        return H @ T / H.sum(), np.ones_like(T), T, H, own
    full = np.concatenate([np.zeros((n, n, 1)), h], axis=2)
    t0 = np.concatenate([[0.], tau])

    def at(dt):
        k = min(max(int(np.searchsorted(t0, dt)), 1), len(tau))
        w = (dt - t0[k - 1]) / (t0[k] - t0[k - 1])
        return full[:, :, k - 1] * (1 - w) + full[:, :, k] * w
    Q, T = np.zeros((n, len(tau))), np.zeros((n, len(tau)))
    g = np.zeros(len(tau))
    if F['bc'] == 'MIFT':
        net = network(F, [models.borehole(b) for b in F['b']])
        m = flow if flow is not None else (F['m'] if 'm' in F else np.array(F['mb']))
        rs = seg_ratios(F)
        ns = [len(x) for x in rs]
        ain, ab = net.coefficients_borehole_heat_extraction_rate(m, F['cp'], ns, segment_ratios=rs)
        ks = 2 * np.pi * F.get('k_s', 2.)
        mtot = abs(m) if np.ndim(m) == 0 else np.sum(np.abs(m))
        R = gt.networks.network_thermal_resistance(net, m, F['cp'])
    for p in range(len(tau)):
        T0 = superpose(h, tau[:p + 1], Q[:, :p + 1])
        hd = at(dts[p])
        if F['bc'] == 'UBWT':
            # T0 + hd Q = g
            a = np.linalg.solve(hd, np.column_stack([np.ones(n), T0]))
            g[p] = (H.sum() + H @ a[:, 1]) / (H @ a[:, 0])
            Q[:, p] = g[p] * a[:, 0] - a[:, 1]
            T[:, p] = g[p]
        else:
            # Q = - (ain Tin + ab T) / (2 pi k_s H), T = T0 + hd Q
            A = np.eye(n) + ab @ hd / (ks * H[:, None])
            x1 = np.linalg.solve(A, -ain[:, 0] / (ks * H))
            x0 = np.linalg.solve(A, -(ab @ T0) / (ks * H))
            Tin = (H.sum() - H @ x0) / (H @ x1)
            Q[:, p] = x1 * Tin + x0
            T[:, p] = T0 + hd @ Q[:, p]
            Tout = Tin - ks * H.sum() / (mtot * F['cp'])
            g[p] = .5 * (Tin + Tout) - ks * R
    return g, Q, T, H, own


def on_times(F, ref):
    """A reference solution at the requested times: linear below the threshold."""
    g, Q, T, H, own = ref
    tau, k, thr = grid(F)
    t = np.atleast_1d(np.array(F['t'], dtype=float))
    if k:
        w = t[:k] / thr
        g = np.concatenate([g[0] * w, g[1:]])
        Q = np.concatenate([1 + (Q[:, :1] - 1) * w, Q[:, 1:]], axis=1)
        T = np.concatenate([T[:, :1] * w, T[:, 1:]], axis=1)
    return g, Q, T, H, own


def means(X, H, own):
    """Averages over boreholes of segment values."""
    return np.array([np.average(X[own == i], axis=0, weights=H[own == i]) for i in range(own.max() + 1)])


def groups(F, g):
    """Group (1..) of each borehole, of those that share a curve."""
    fig = g.visualize_heat_extraction_rates()
    a1, a2 = fig.axes[:2]
    r = [0] * len(F['b'])
    k = 0
    for l in a1.lines:
        if l.get_marker() != 'o' or l.get_color() == 'k':
            continue
        k += 1
        for x, y in zip(np.atleast_1d(l.get_xdata()), np.atleast_1d(l.get_ydata())):
            for i, b in enumerate(F['b']):
                if math.hypot(b[3] - x, b[4] - y) < 1e-6:
                    r[i] = k
    plt.close(fig)
    return r
