"""Histories of evaluations of g-functions (C16, C17)."""
import copy
import math
import numpy as np
from tv import ints, shaped, attempt, load_repo
import fields as fl
import models
import c13
gt = load_repo()
BIG = 10**6


class History:
    """Objects that share boreholes (and a network), evaluated over times given
    by index: the first `low` ones are not above the threshold."""

    def __init__(self, ev, rng, Fs, nt, low, flows=None):
        self.ev, self.rng, self.Fs, self.flows = ev, rng, Fs, flows
        F = Fs[0]
        thr = max(b[2] for b in F['b']) ** 2 / (25. * F['alpha'])
        exact = rng.random() < .5
        if exact:
            thr = thr * rng.choice([1., 1., 10., 1000.])
            for f in Fs:
                f['opts']['linear_threshold'] = thr
        w = [0] + sorted(rng.sample(range(1, 999), low - 2)) + [1000]
        self.t = [thr * x / 1000 for x in w]
        self.t[-1] = thr if exact else thr * (1. - 1e-11)
        x = thr
        for _ in range(nt - low):
            x *= 10. ** rng.uniform(.3, 2.)
            self.t.append(x)
        self.bores = [models.borehole(b) for b in F['b']]
        self.net = fl.network(next(f for f in Fs if f['bc'] == 'MIFT'), self.bores) if any(f['bc'] == 'MIFT' for f in Fs) else None
        self.opts = [fl.options(f) for f in Fs]
        self.before = copy.deepcopy((self.opts, [vars(b) for b in self.bores]))
        self.low, self.nt, self.n = low, nt, len(F['b'])
        self.rs = [fl.seg_ratios(f) for f in Fs]
        self.objs, self.scales, self.arrays = {}, {}, []
        ev.append({'ev': 'Field', 'thr': low, 'w': w, 'n': self.n, 'tol': 8})

    def build(self, c, f, time):
        F = self.Fs[c]
        k = {}
        if F['bc'] == 'MIFT':
            k['cp_f'] = F['cp']
            key = 'm' if 'm' in F else 'mb'
            if f is None:
                v = F[key]
            elif isinstance(f, int):
                v = self.flows[c][f - 1]
            else:
                v = [self.flows[c][i - 1] for i in f]
            k['m_flow_network' if key == 'm' else 'm_flow_borehole'] = v if isinstance(v, float) else np.array(v)
        o = self.net if F['bc'] == 'MIFT' else self.bores
        if isinstance(time, np.ndarray):
            self.arrays.append((time, time.copy()))
        return gt.gfunction.gFunction(o, F['alpha'], time=time, method=F['method'], boundary_condition=F['bc'],
                                      options=self.opts[c], **k)

    def evaluate(self, c, how, ts, f=None, ids=None):
        """f: None, the flow of the field; an integer, a constant flow; a
        list, several flows."""
        rng = self.rng
        t = np.array([self.t[i - 1] for i in ts])
        time = float(t[0]) if len(t) == 1 and rng.random() < .5 else t
        key = (c, str(f))
        if how == 'new' or key not in self.objs:
            if rng.random() < .3:
                g = self.build(c, f, None)
                ret = g.evaluate_g_function(time)
            else:
                g = self.build(c, f, time)
                ret = g.gFunc
            self.objs[key] = g
        else:
            g = self.objs[key]
            if isinstance(time, np.ndarray):
                self.arrays.append((time, time.copy()))
            ret = g.evaluate_g_function(time)
        return self.record(c, g, ret, ts, f, t)

    def read(self, c, g, f, t):
        """All values of a solution, by position in the list of flow rates."""
        F = {**self.Fs[c], 't': list(t)}
        nt, n = len(t), self.n
        several = isinstance(f, list)
        nf = len(f) if several else 1
        v = {'g': shaped(g.gFunc, (nf, nf, nt) if several else (nt,)).reshape(nf, nf, nt), 'q': [], 't': [], 'sq': [], 'st': []}
        for j in range(nf):
            wh = j if several else None
            v['q'].append(shaped(fl.rates(F, g, wh), (n, nt)) - 1.)
            v['t'].append(shaped(fl.temperatures(F, g, wh), (n, nt)))
            p = fl.profiles(F, g, None, wh)
            v['sq'].append(np.concatenate([x[1] for x in p])[:, None] - 1.)
            v['st'].append(np.concatenate([x[3] for x in p])[:, None])
        return v

    def record(self, c, g, ret, ts, f, t):
        F = {**self.Fs[c], 't': list(t)}
        nt = len(ts)
        ids = list(f) if isinstance(f, list) else [f or 0]
        nf = len(ids)
        v = self.read(c, g, f, t)
        ret = shaped(ret, (nf, nf, nt) if isinstance(f, list) else (nt,)).reshape(nf, nf, nt)
        end = self.t[self.low - 1]
        thr = None

        def scale(name, ij, i):
            """Scale of a kind of values of a flow at the i-th time; below the
            threshold it is that at the threshold."""
            nonlocal thr
            low = ts[i] <= self.low
            key = (name, c, tuple(ids[x] for x in ij), 1 if low else ts[i])
            if key not in self.scales:
                r = t[i] / end if low else 1.
                if r < .05:
                    if thr is None:
                        thr = self.read(c, self.build(c, f, float(end)), f, [end])
                    x, r = thr[name], 1.
                else:
                    x = v[name]
                for k in ij:
                    x = x[k]
                k = min(i, x.shape[-1] - 1) if x is not None else 0
                self.scales[key] = 1e5 / max(float(np.abs(x[..., k]).max()) / r, 1e-5)
            return self.scales[key]

        def cut(name, ij, x=None):
            if x is None:
                x = v[name]
                for k in ij:
                    x = x[k]
            if name[0] == 's':
                return ints(x[:, 0] * scale(name, ij, nt - 1), 1., cap=BIG, nan=BIG)
            return ints(x * np.array([scale(name, ij, i) for i in range(nt)]), 1., cap=BIG, nan=BIG)
        R = range(nf)
        e = {'ev': 'Eval', 'c': c, 'ts': list(ts), 'f': ids, 'g': [[cut('g', (i, j)) for j in R] for i in R],
             'ret': [[cut('g', (i, j), ret[i, j]) for j in R] for i in R]}
        for name in ('q', 't', 'sq', 'st'):
            e[name] = [cut(name, (j,)) for j in R]
        self.ev.append(e)
        self.last = (g, F)
        self.sg = [[[scale('g', (i, j), p) for p in range(nt)] for j in R] for i in R]
        return g

    def inputs(self):
        now = (self.opts, [vars(b) for b in self.bores])
        same = same_values(self.before, now) and all(np.array_equal(a, b) for a, b in self.arrays)
        self.ev.append({'ev': 'Inputs', 'same': bool(same)})

    def unscaled(self):
        """A threshold of zero is one under all times."""
        rng = self.rng
        c = rng.randrange(len(self.Fs))
        thr = max(b[2] for b in self.Fs[c]['b']) ** 2 / (25. * self.Fs[c]['alpha'])
        t = np.array([rng.uniform(.2, .9), rng.uniform(1., 2.), 10. ** rng.uniform(.5, 4.)]) * thr
        g, opts = [], self.opts[c]
        for x in (0., t[0] * rng.uniform(.1, .9)):
            self.opts[c] = {**opts, 'linear_threshold': x}
            g.append(self.build(c, None, t).gFunc)
        self.opts[c] = opts
        s = 1e5 / np.maximum(np.abs(g[1]), 1e-5)
        self.ev.append({'ev': 'Zero', 'a': ints(g[0] * s, 1., cap=BIG, nan=BIG), 'b': ints(g[1] * s, 1., cap=BIG, nan=BIG)})

    def reject(self):
        g = next(iter(self.objs.values()))
        t = np.array([self.t[-1], self.t[-2]])
        self.ev.append({'ev': 'Reject', 'err': attempt(g.evaluate_g_function, t)[1]})


def same_values(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same_values(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same_values(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b)
    return a is b or a == b or (isinstance(a, float) and math.isnan(a))
