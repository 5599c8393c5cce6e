"""C18: responses of finite line sources under cuts, moves, scaling, in every form."""
import math
import random
import numpy as np
from scipy.special import erfc
from tv import load_repo, ints, scale_of, shaped
gt = load_repo()
HT, BH = gt.heat_transfer, gt.boreholes.Borehole
FLS = HT.finite_line_source


class Line:
    def __init__(self, H, D, r_b, x, y, tilt=0., ori=0.):
        self.a = [H, D, r_b, x, y, tilt, ori]

    def bore(self):
        return BH(*self.a) if self.a[5] else BH(*self.a[:5])

    def dir(self):
        t, o = self.a[5:]
        return np.array([math.sin(t) * math.cos(o), math.sin(t) * math.sin(o), math.cos(t)])

    def points(self, u):
        H, D, _, x, y = self.a[:5]
        return np.array([x, y, D])[:, None] + H * u * self.dir()[:, None]

    def cut(self, f):
        H, D, r, x, y, t, o = self.a
        d = self.dir() * H * f
        return Line(H * f, D, r, x, y, t, o), Line(H * (1 - f), D + d[2], r, x + d[0], y + d[1], t, o)


def ref(s, r, t, alpha, n=48):
    """The same response from point sources, for lines that are far apart."""
    x, w = np.polynomial.legendre.leggauss(n)
    u, w = (x + 1) / 2, w / 2
    p, q = s.points(u), r.points(u)
    d = p[:, :, None] - q[:, None, :]
    a = np.sqrt((d ** 2).sum(0))
    d[2] = p[2][:, None] + q[2][None, :]
    b = np.sqrt((d ** 2).sum(0))
    k = math.sqrt(4 * alpha * t)
    return .5 * s.a[0] * (w @ (erfc(a / k) / a - erfc(b / k) / b) @ w)


def gap(s, r):
    u = np.linspace(0., 1., 30)
    d = s.points(u)[:, :, None] - r.points(u)[:, None, :]
    return float(np.sqrt((d ** 2).sum(0)).min())


def field(ev, seed, beh, tilted):
    rng = random.Random(seed)
    alpha = rng.choice([1e-6, 5e-7, 1.5e-6])
    # lines of a column are of the same radius
    rb = [rng.choice([.05, .075, .1]) for _ in range(10)]
    M = 31 if tilted else 11
    kw = {'M': M} if tilted else {}
    du, ou = rng.uniform(12., 25.), rng.uniform(-3., 3.)
    hu, d0 = rng.uniform(12., 45.), rng.choice([0., rng.uniform(0., 5.)])
    cells = beh['f']
    while True:
        # inclined lines share a column only if they are one borehole
        til = {c: (rng.uniform(.05, .6), rng.uniform(-3.1, 3.1)) for c in range(20)} if tilted else None
        L, org = [], []
        for k, c in enumerate(cells):
            x, y = [du * c['c'] * g for g in (math.cos(ou), math.sin(ou))]
            l = Line(c['h'] * hu, d0 + c['z'] * hu, rb[c['c']], x, y, *(til[c['c']] if tilted and (k or rng.random() < .7) else ()))
            L.append(l)
        if not tilted:
            break
        if all(gap(L[i], L[j]) > 10. for i in range(len(L)) for j in range(i)):
            break
        du += 1.
        if any(cells[i]['c'] == cells[j]['c'] for i in range(len(L)) for j in range(i)):
            # one line of each column
            seen, keep = set(), []
            for c in cells:
                if c['c'] not in seen:
                    seen.add(c['c'])
                    keep.append(c)
            cells = keep
    org = list(range(len(L)))
    lam = 1.
    times = sorted(10. ** rng.uniform(5.5, 10.) for _ in range(3))

    def full(real, img, t, al, how):
        b = [l.bore() for l in L]
        n = len(b)
        H = np.array([l.a[0] for l in L])
        f = b if how == 1 else gt.borefield.Borefield.from_boreholes(b)
        if how == 2 or img and not real and not any(l.a[5] for l in L):
            # quad_vec has only a relative tolerance, that small images of noise cannot reach in time
            h = np.array([[FLS(np.array(t), al, p, q, reaSource=real, imgSource=img, **kw) for p in b] for q in b])
        else:
            h = FLS(np.array(t), al, f, f, reaSource=real, imgSource=img, **kw)
        h = shaped(h, (n, n, len(t)))
        return np.moveaxis(h * H[:, None, None], -1, 0) / lam

    s = None

    def record(op):
        nonlocal s
        t, al = [x * lam ** 2 for x in times], alpha
        if op.get('op') == 'scale' and rng.random() < .5:
            # the same from the diffusivity
            t, al = list(times), alpha * lam ** 2
        how = rng.randrange(3)
        G = full(True, True, t, al, how)
        if s is None:
            s = scale_of(G)
        at = [(i, j) for i in range(len(L)) for j in range(len(L)) if gap(L[i], L[j]) > 10. * lam][:8]
        e = {'n': len(L), 'vertical': not tilted, 'tol': 40 if tilted else 20, 'm': ints(G, s),
             'real': ints(full(True, False, t, al, how), s), 'img': ints(full(False, True, t, al, how), s),
             'none': int(np.any(full(False, False, t, al, how) != 0.)),
             'at': [[i + 1, j + 1] for i, j in at],
             'ref': [ints([L[i].a[0] * ref(L[j], L[i], x, al) / lam for i, j in at], s) for x in t]}
        ev.append({'ev': 'Op' if op else 'Start', **e, **op})
    record({})
    for o in beh['ops']:
        k = o['op']
        if k == 'cut':
            i = o['i'] - 1
            if i >= len(L):
                continue
            f = rng.choice([o['c'] / (o['c'] + 1.), rng.uniform(.2, .8)])
            L[i], b = L[i].cut(f)
            L.append(b)
            o = {'op': 'cut', 'i': i + 1}
        elif k == 'swap':
            i, j = o['i'] - 1, o['j'] - 1
            if max(i, j) >= len(L):
                continue
            L[i], L[j] = L[j], L[i]
        elif k == 'scale':
            # within lengths and times that the quadratures were made for
            f = rng.choice([x for x in (.25, 2., 3.7) if .2 < lam * x < 8.])
            lam *= f
            for l in L:
                for q in range(5):
                    l.a[q] *= f
        elif k == 'move':
            dx, dy = rng.uniform(-500., 500.), rng.uniform(-500., 500.)
            for l in L:
                l.a[3] += dx
                l.a[4] += dy
        elif k == 'turn':
            a = rng.choice([math.pi / 2, math.pi, rng.uniform(-4., 4.)])
            for l in L:
                x, y = l.a[3:5]
                l.a[3:5] = x * math.cos(a) - y * math.sin(a), x * math.sin(a) + y * math.cos(a)
                l.a[6] += a
        elif k == 'mirror':
            a = rng.choice([0., math.pi / 2, rng.uniform(-4., 4.)])
            for l in L:
                x, y = l.a[3:5]
                l.a[3:5] = x * math.cos(2 * a) + y * math.sin(2 * a), x * math.sin(2 * a) - y * math.cos(2 * a)
                l.a[6] = 2 * a - l.a[6]
        record(o)


def forms(ev, seed, tilted):
    """The same responses requested in every way."""
    rng = random.Random(seed)
    al = 1e-6
    rb = .075
    far = 11.

    def mk(t):
        return Line(rng.uniform(20., 180.), rng.choice([0., rng.uniform(0., 30.)]), rb, rng.uniform(-40., 40.), rng.uniform(-40., 40.),
                    *((rng.uniform(.02, .5), rng.uniform(-3.1, 3.1)) if t else ()))
    n1, n2 = rng.randint(1, 3), rng.randint(1, 3)
    while True:
        # one of the sets may be vertical
        w = rng.randrange(3) if tilted else 3
        A = [mk(tilted and w != 1) for _ in range(n1)]
        B = [mk(tilted and w != 2) for _ in range(n2)]
        if all(gap(a, b) > far for a in A for b in B):
            break
    t = np.array(sorted(float(round(10. ** rng.uniform(6., 9.5))) for _ in range(rng.randint(1, 4))))
    T = len(t)
    # one time, as any kind of number
    num = lambda x: rng.choice([float, float, int, np.float64, np.int64, np.array])(x)
    rea, img = rng.choice([(True, True), (True, True), (True, False), (False, True)])
    if img and not rea and max(x.a[1] for x in A + B) ** 2 > al * t[0]:
        rea = True
    if rng.random() < .5:
        # times in any order, repeated
        t = np.array([rng.choice(list(t)) if rng.random() < .2 else x for x in rng.sample(list(t), T)])
    M = rng.choice([11, 21]) if tilted else 11
    kw = dict(reaSource=rea, imgSource=img, **({'M': M} if tilted else {}))
    a, b = [x.bore() for x in A], [x.bore() for x in B]
    fa, fb = [gt.borefield.Borefield.from_boreholes(x) for x in (a, b)]
    P = lambda f: np.array([[f(x, y) for x in a] for y in b])
    arg = lambda x, s: [np.array([getattr(q, k) for q in x]).reshape(s) for k in ('x', 'y', 'H', 'D', 'tilt', 'orientation')]
    dis = np.array([[max(math.hypot(p.x - q.x, p.y - q.y), rb) for p in a] for q in b])
    xa, ya, Ha, Da, ta, oa = arg(a, (1, -1))
    xb, yb, Hb, Db, tb, ob = arg(b, (-1, 1))

    def all_forms(**k):
        k = {**kw, **k}
        ap = k.get('approximation')
        v = [P(lambda p, q: FLS(t, al, p, q, **k)),
             FLS(t, al, a, b, **k), FLS(t, al, fa, fb, **k),
             P(lambda p, q: [float(np.squeeze(FLS(num(x), al, p, q, **k))) for x in t]),
             np.stack([np.reshape(FLS(num(x), al, a, fb, **k), (n2, n1)) for x in t], axis=-1),
             np.concatenate([np.reshape(FLS(t, al, p, b, **k), (n2, 1, T)) for p in a], axis=1),
             np.concatenate([np.reshape(FLS(t, al, fa, q, **k), (1, n1, T)) for q in b], axis=0)]
        g = {q: k[q] for q in k if q in ('reaSource', 'imgSource')}
        if tilted:
            args = (rb, xa, ya, Ha, Da, ta, oa, xb, yb, Hb, Db, tb, ob)
            g['M'] = M
            v.append(HT.finite_line_source_inclined_vectorized(t, al, *args, **k))
            v.append(np.stack([HT.finite_line_source_inclined_vectorized(num(x), al, *args, **k) for x in t], axis=-1))
            # pairs as a list
            i, j = np.divmod(np.arange(n1 * n2), n1)
            pick = [np.full(n1 * n2, rb)] + [x.ravel()[j] for x in (xa, ya, Ha, Da, ta, oa)] + [x.ravel()[i] for x in (xb, yb, Hb, Db, tb, ob)]
            v.append(np.reshape(HT.finite_line_source_inclined_vectorized(t, al, *pick, **k), (n2, n1, T)))
            if ap:
                v.append(HT.finite_line_source_inclined_approximation(t, al, *args, N=k['N'], **g))
        else:
            v.append(HT.finite_line_source_vectorized(t, al, dis, Ha, Da, Hb, Db, **k))
            v.append(np.stack([HT.finite_line_source_vectorized(num(x), al, dis, Ha, Da, Hb, Db, **k) for x in t], axis=-1))
            i, j = np.divmod(np.arange(n1 * n2), n1)
            v.append(np.reshape(HT.finite_line_source_vectorized(t, al, dis.ravel(), Ha.ravel()[j], Da.ravel()[j], Hb.ravel()[i], Db.ravel()[i], **k), (n2, n1, T)))
            if ap:
                v.append(HT.finite_line_source_approximation(t, al, dis, Ha, Da, Hb, Db, N=k['N'], **g))
        return v
    v = all_forms()
    N = rng.choice([10, rng.randint(1, 24)])
    p = all_forms(approximation=True, N=N)
    # errors are relative to the responses at the wall
    s = scale_of(*[FLS(t, al, x, BH(x.H, x.D, rb, x.x, x.y)) for x in map(lambda q: BH(q.H, q.D, rb, q.x, q.y), a)])
    ok = lambda x: [list(np.shape(y)) == [n2, n1, T] for y in x]
    ev.append({'ev': 'Forms', 'v': [ints(np.ravel(x), s) for x in v], 'shape': ok(v) + ok(p)[:0],
               'approx': [ints(np.ravel(x), s) for x in p], 'tol': 20, 'atol': 3000 if N >= 10 else 2000000})
    # steady state
    u = [P(lambda c, d: FLS(np.inf, al, c, d, **kw)), FLS(np.inf, al, a, b, **kw), FLS(np.inf, al, fa, fb, **kw)]
    # whatever the infinity, which the approximation does not approximate
    inf = rng.choice([float('inf'), np.float64('inf'), np.array(np.inf), np.array([1e9, np.inf])[1]])
    u += [P(lambda c, d: FLS(inf, al, c, d, approximation=True, **kw)), FLS(inf, al, a, b, approximation=True, **kw), FLS(inf, al, a, b, **kw)]
    # a single source approaches it too slowly
    k2 = {k: kw[k] for k in kw if k == 'M'}
    lim = FLS(1e15, al, a, b, **kw) if rea and img else FLS(np.inf, al, a, b, **k2) - FLS(np.inf, al, a, b, reaSource=not rea, imgSource=not img, **k2)
    s1 = scale_of(*u, 5.)
    for x in u:
        ev.append({'ev': 'Near', 'what': 'SteadyState', 'a': ints(np.ravel(x), s1), 'b': ints(np.ravel(lim), s1), 'tol': 60})
    if rea:
        ev.append({'ev': 'Near', 'what': 'BelowSteadyState', 'a': ints(np.maximum(np.ravel(v[1][..., np.argmax(t)]) - np.ravel(u[1]), 0.), s),
                   'b': [0] * (n1 * n2), 'tol': 60})


def vanish(ev, seed):
    """Inclined formulas as the tilt vanishes."""
    rng = random.Random(seed)
    al, rb = 1e-6, .075
    t = np.array(sorted(10. ** rng.uniform(6., 9.5) for _ in range(3)))
    for _ in range(6):
        a = [rng.uniform(20., 180.), rng.uniform(0., 30.), rb, 0., 0.]
        d, o = rng.uniform(10., 40.), rng.uniform(-3., 3.)
        b = [rng.uniform(20., 180.), rng.uniform(0., 30.), rb, d * math.cos(o), d * math.sin(o)]
        A, B = [BH(*x) for x in (a, b)]
        A2 = BH(*a, tilt=2e-6, orientation=rng.uniform(-3., 3.))
        B2 = BH(*b, tilt=2e-6, orientation=rng.uniform(-3., 3.))
        k = dict(reaSource=rng.random() < .8, imgSource=rng.random() < .8)
        for ap in ({}, {'approximation': True, 'N': 10}, None):
            x, kk = (t, {**k, **ap}) if ap is not None else (np.inf, k)
            v = FLS(x, al, A, B, **kk)
            w = [FLS(x, al, p, q, M=31, **kk) for p, q in ((A2, B), (A, B2), (A2, B2))]
            s = scale_of(FLS(x, al, A, A))
            for y in w:
                # the approximation is not the same one
                ev.append({'ev': 'Near', 'what': 'Vertical', 'a': ints(np.ravel(y), s), 'b': ints(np.ravel(v), s), 'tol': 200 if not ap else 6000})
        # next to itself
        k = dict(reaSource=True, imgSource=rng.random() < .8)
        v, w = FLS(t, al, A, A, **k), FLS(t, al, A2, A2, M=201, **k)
        s = scale_of(v)
        ev.append({'ev': 'Near', 'what': 'VerticalSelf', 'a': ints(w, s), 'b': ints(v, s), 'tol': 20000})


def equivalent(ev, seed):
    """Equivalent boreholes are weighted sums over distances."""
    rng = random.Random(seed)
    al = 1e-6
    t = np.array(sorted(10. ** rng.uniform(6., 9.5) for _ in range(3)))
    nd, n = rng.randint(1, 6), rng.randint(1, 4)
    dis = np.array(sorted(rng.choice([.075, rng.uniform(3., 60.)]) for _ in range(nd)))
    w = np.array([[float(rng.randint(0, 9))] for _ in range(nd)])
    N2 = float(rng.randint(1, 9))
    # one pair of groups, or pairs stacked along the first axis
    P = rng.randint(1, 4)
    stacked = rng.random() < .5
    if stacked:
        dis = dis.reshape((1, -1))
        w = np.array([[float(rng.randint(0, 9)) for _ in range(P)] for _ in range(nd)])
        N2 = np.array([[float(rng.randint(1, 9))] for _ in range(P)])
    H1, D1, H2, D2 = [np.array([[rng.uniform(*r) for _ in range(n)] for _ in range(P if stacked else 1)]) for r in ((5., 80.), (0., 30.), (5., 80.), (0., 30.))]
    rea, img = rng.choice([(True, True), (True, False), (False, True), (False, False)])
    if img and not rea:
        D1[:], D2[:], t = 0., 0., t * 10
    k = dict(reaSource=rea, imgSource=img)
    got = [HT.finite_line_source_equivalent_boreholes_vectorized(t, al, dis, w, H1, D1, H2, D2, N2, **k),
           np.stack([HT.finite_line_source_equivalent_boreholes_vectorized(float(x), al, dis, w, H1, D1, H2, D2, N2, **k) for x in t], axis=-1)]
    W = w[:, :, None, None] if stacked else w[:, None]
    want = sum(W[i] * HT.finite_line_source_vectorized(t, al, dis.ravel()[i], H1, D1, H2, D2, **k) for i in range(nd)) / (N2[:, :, None] if stacked else N2)
    s = scale_of(want)
    for g in got:
        ev.append({'ev': 'Near', 'what': 'Weighted', 'a': ints(np.ravel(g), s), 'b': ints(np.ravel(want), s), 'tol': 30})


def broadcast(ev, seed, tilted, one=None):
    """Any of the arguments given as arrays of any shape."""
    rng = random.Random(seed)
    al = 1e-6
    names = ['rb1', 'x1', 'y1', 'H1', 'D1', 'tilt1', 'orientation1', 'x2', 'y2', 'H2', 'D2', 'tilt2', 'orientation2'] if tilted else ['dis', 'H1', 'D1', 'H2', 'D2']
    of = {'r': (.04, .1), 'd': (11., 60.), 'x': (-6., 6.), 'y': (-6., 6.), 'H': (20., 180.), 'D': (0., 30.), 't': (.01, .3), 'o': (-3., 3.)}
    n, m = rng.randint(2, 3), rng.randint(1, 3)
    pick = rng.choice([1, 1, 2, 3, len(names)])
    vary = rng.sample(names, min(pick, len(names)))
    shapes = rng.choice([[(m,)], [(n, m)], [(n, 1), (1, m)], [(n, 1), (m,)], [(n, m), (m,), (n, 1)], [(m,), ()]])
    if one is not None:
        vary = [names[one]]
    args = {}
    for k in names:
        lo, hi = of[k[0]]
        if k == 'x2':
            # inclined lines that do not cross
            lo, hi = 150., 170.
        s = rng.choice(shapes) if k in vary else ()
        a = np.array([rng.uniform(lo, hi) for _ in range(int(np.prod(s)))]).reshape(s)
        args[k] = a if s or rng.random() < .2 else float(a)
    f = HT.finite_line_source_inclined_vectorized if tilted else HT.finite_line_source_vectorized
    rea, img = rng.choice([(True, True), (True, True), (True, False), (False, True), (False, False)])
    k = dict(reaSource=rea, imgSource=img, **({'M': 11} if tilted else {}))
    t0 = [10. ** rng.uniform(7., 9.5) for _ in range(rng.randint(1, 3))]
    if img and not rea:
        t0 = [max(t0) * 30.]
    ap = rng.choice([{}, {}, dict(approximation=True, N=rng.choice([10, 14]))])
    full = dict(zip(names, np.broadcast_arrays(*[args[q] for q in names])))
    shape = full[names[0]].shape
    for t in (np.array(sorted(t0)), t0[0]):
        h = f(t, al, **args, **k, **ap)
        want = np.empty(shape + np.shape(t))
        for i in np.ndindex(shape):
            want[i] = f(t, al, **{q: float(full[q][i]) for q in names}, **k, **ap)
        s = scale_of(want, .1)
        ev.append({'ev': 'Near', 'what': 'Broadcast', 'a': ints(np.ravel(np.broadcast_to(h, want.shape)), s), 'b': ints(np.ravel(want), s), 'tol': 1000 if tilted else 60})


def terms(ev, N):
    """Documented numbers of terms of the approximation."""
    a, b = BH(150., 4., .075, 0., 0.), BH(120., 2., .075, 6., 0.)
    v = np.array([FLS(3e8, 1e-6, p, q, approximation=True, N=N) for p in (a, b) for q in (a, b)])
    w = np.array([FLS(3e8, 1e-6, p, q) for p in (a, b) for q in (a, b)])
    ev.append({'ev': 'Near', 'what': 'Terms', 'a': ints(v, 1e6), 'b': ints(w, 1e6), 'tol': 600 if N >= 10 else 400000})


def functions(ev):
    from scipy.special import exp1, erf
    x = np.concatenate((np.logspace(-8., 1.3, 400), np.linspace(.01, 8., 400)))
    r = gt.utilities.exp1(x) / exp1(x)
    ev.append({'ev': 'Near', 'what': 'Exp1', 'a': ints(r, 1e7), 'b': [10 ** 7] * len(x), 'tol': 7000})
    x = np.concatenate((-np.linspace(.01, 5., 60), np.linspace(0., 5., 60), np.logspace(-3, 2, 30)))
    u, w = np.polynomial.legendre.leggauss(200)
    want = [y / 2 * (w @ erf(y * (u + 1) / 2)) for y in x]
    for k in range(0, len(x), 30):
        z = np.maximum(np.abs(x[k:k + 30]), 1e-9)
        ev.append({'ev': 'Near', 'what': 'Erfint', 'a': ints(gt.utilities.erfint(x[k:k + 30]) / z, 1e7), 'b': ints(want[k:k + 30] / z, 1e7), 'tol': 100})


FUNCS = {'terms': terms, 'functions': functions, 'field': field, 'forms': forms, 'vanish': vanish, 'equivalent': equivalent, 'broadcast': broadcast}
CFG = '''CONSTANTS NL = %d
H = %d
D = %d
C = 1
NOps = %d
Mut = "%s"
Gen = %s
SPECIFICATION Spec
INVARIANTS %s
%s
'''
INV = 'InvClosed InvReciprocal InvBlocks'


def main(chk):
    rng = chk.rng
    chk.design('MCFLS', CFG % (*((2, 2, 1, 2) if chk.quick else (2, 3, 2, 3)), 'none', 'FALSE', INV, ''), label='Line sources', timeout=800, workers=4)
    for m in ('sign', 'depth', 'term', 'length', 'parent', 'order', 'sink'):
        chk.design('MCFLS', CFG % (2, 2 if m != 'parent' else 3, 1, 2, m, 'FALSE', INV, ''), expect=set(INV.split()), label='Line sources with ' + m)
    n = 60 if chk.quick else 600
    beh = chk.behaviours('MCFLS', CFG % (3, 3, 3, 5, 'none', 'TRUE', 'Emit', 'CONSTRAINT Stop'), label='Line sources, programs', simulate=(n, 60))
    ts = []
    for i, b in enumerate(beh):
        ts.append((f'field-{i}', 'field', dict(seed=rng.getrandbits(30), beh=b, tilted=i % 3 == 2)))
    for i in range(60 if chk.quick else 600):
        ts.append((f'forms-{i}', 'forms', dict(seed=rng.getrandbits(30), tilted=i % 2 == 1)))
    for i in range(8 if chk.quick else 80):
        ts.append((f'vanish-{i}', 'vanish', dict(seed=rng.getrandbits(30))))
        ts.append((f'equiv-{i}', 'equivalent', dict(seed=rng.getrandbits(30))))
        ts.append((f'equiv-s{i}', 'equivalent', dict(seed=rng.getrandbits(30))))
    for i in range(13):
        for tilted in (False, True)[int(i >= 5):]:
            for j in range(2 if chk.quick else 6):
                ts.append((f'broadcast1-{int(tilted)}-{i}-{j}', 'broadcast', dict(seed=rng.getrandbits(30), tilted=tilted, one=i)))
    for i in range(80 if chk.quick else 800):
        ts.append((f'broadcast-{i}', 'broadcast', dict(seed=rng.getrandbits(30), tilted=i % 2 == 1)))
    ts.append(('functions', 'functions', {}))
    for N in range(1, 26):
        ts.append((f'terms-{N}', 'terms', dict(N=N)))
    eps = chk.run(FUNCS, ts)
    chk.bounds = {'fields': f'{len(beh)} programs of cuts, swaps, moves and scaling on up to 3 lines, vertical and inclined'}
    chk.validate('TraceFLS', eps)
