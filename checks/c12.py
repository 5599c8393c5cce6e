"""C12: segments of boreholes, and the expanding mesh."""
import math
import random
import numpy as np
from tv import load_repo, ints, attempt
gt = load_repo()
BH = gt.boreholes.Borehole


def ends(b):
    d = (math.sin(b.tilt) * math.cos(b.orientation), math.sin(b.tilt) * math.sin(b.orientation), math.cos(b.tilt))
    return [b.x, b.y, b.D], [b.x + b.H * d[0], b.y + b.H * d[1], b.D + b.H * d[2]]


def cut(ev, b, n, ratios):
    before = dict(vars(b))
    a = None if ratios is None else ratios
    segs = b.segments(n) if a is None else b.segments(n, segment_ratios=a)
    r = np.full(n, 1. / n) if ratios is None else np.asarray(ratios)
    e = [ends(s) for s in segs]
    head, foot = ends(b)
    s = 1e7 / max(map(abs, head + foot))
    alike = [int(x.r_b == b.r_b and x.tilt == b.tilt and x.orientation == b.orientation and x.is_tilted() == b.is_tilted())
             for x in segs]
    ev.append({'ev': 'Seg', 'ratios': ints(r, 1e7), 'len': ints([x.H / b.H for x in segs], 1e7), 'head': ints(head, s),
               'foot': ints(foot, s), 'top': ints([x[0] for x in e], s), 'bottom': ints([x[1] for x in e], s),
               'alike': alike, 'same': vars(b) == before})
    return segs


def segments(ev, seed, n):
    rng = random.Random(seed)
    tilted = rng.random() < .6
    b = BH(rng.uniform(1., 300.), rng.choice([0., 1., rng.uniform(0., 60.)]), .075, rng.uniform(-50., 50.), rng.uniform(-50., 50.),
           *((rng.uniform(.01, 1.4), rng.uniform(-4., 7.)) if tilted else ()))
    mode = rng.randrange(4)
    if mode == 0:
        r = None
    elif mode == 1:
        r = gt.utilities.segment_ratios(n, end_length_ratio=rng.uniform(.3, .95) / n if n > 2 else .02)
    else:
        w = [rng.uniform(.05, 1.) ** 2 for _ in range(n)]
        r = np.array(w) / sum(w)
        if mode == 3:
            r = r.tolist() if rng.random() < .5 else r
    segs = cut(ev, b, n, r)
    # segments are boreholes
    s = rng.choice(segs)
    m = rng.randint(1, 5)
    cut(ev, s, m, None if rng.random() < .5 else np.full(m, 1. / m))
    f = gt.borefield.Borefield.from_boreholes(segs)
    cut(ev, f[rng.randrange(len(segs))], m, None)


EQ = gt.boreholes._EquivalentBorehole


def member(b, k=None):
    """Head, bottom, radius of a borehole, or of a member of an equivalent one."""
    at = lambda v: float(np.atleast_1d(v)[0 if len(np.atleast_1d(v)) == 1 else k])
    H, t, o = float(b.H), float(b.tilt), at(b.orientation)
    x, y, z = at(b.x), at(b.y), float(b.D)
    return [x, y, z, x + H * math.sin(t) * math.cos(o), y + H * math.sin(t) * math.sin(o), z + H * math.cos(t), b.r_b]


def equivalent(ev, seed):
    """An equivalent borehole stands for its members."""
    rng = random.Random(seed)
    H, D, t = rng.uniform(5., 200.), rng.choice([0., rng.uniform(0., 9.)]), rng.choice([0., rng.uniform(.01, .6)])

    def make(n):
        cells = rng.sample([(x, y) for x in range(4) for y in range(4)], n)
        return [BH(H, D, .075, 5. * x + rng.choice([0., .3]), 5. * y, tilt=t, orientation=rng.uniform(-3., 3.) if t else 0.) for x, y in cells]
    a, b = make(rng.randint(1, 5)), make(rng.randint(1, 5))

    def join(c):
        mode = rng.randrange(4)
        if mode == 0 and len(c) > 1:
            k = rng.randint(1, len(c) - 1)
            return EQ([EQ(c[:k]), EQ(c[k:])])
        if mode == 1:
            x, y = np.array([q.x for q in c]), np.array([q.y for q in c])
            return EQ((H, D, .075, x, y) + ((t, np.array([q.orientation for q in c])) if t or rng.random() < .5 else ()))
        return EQ(gt.borefield.Borefield.from_boreholes(c)) if mode == 2 else EQ(c)
    A, B = join(a), join(b)
    n = rng.randint(1, 5)
    r = None
    if rng.random() < .6:
        w = [rng.uniform(.05, 1.) for _ in range(n)]
        r = np.array(w) / sum(w)
    parts = A.segments(n) if r is None else A.segments(n, segment_ratios=r)
    want = [q.segments(n) if r is None else q.segments(n, segment_ratios=r) for q in a]
    sc = lambda v: ints(v, 1e4)
    d = np.array([[max(math.hypot(p.x - q.x, p.y - q.y), .075) for p in a] for q in b])
    pos = A.position()
    ev.append({'ev': 'Equivalent', 'n': A.nBoreholes, 'tilted': [bool(A.is_tilted()), not A.is_vertical()], 'wanttilted': [t > 0, t > 0],
               'members': [sc(member(q)) for q in a], 'at': [sc(member(A, k)) for k in range(len(A.x))] if list(pos[0]) == list(A.x) and list(pos[1]) == list(A.y) else [],
               'parts': [[sc(member(p, k)) for p in parts] for k in range(len(a))] if all(p.nBoreholes == len(a) for p in parts) else [],
               'wantparts': [[sc(member(p)) for p in q] for q in want], 'dis': [sc(x) for x in A.distance(B)], 'wantdis': [sc(x) for x in d]})
    # tolerances that no quotient of distances meets
    q, x = 1000, np.sort(d.flatten())
    for p in {10, rng.choice([1, 37, 113, 256, 400, 900, 3000])}:
        z = x[:, None] / x[None, :] - 1. - p / q
        if np.abs(z).min() > 2e-5:
            m, w = A.unique_distance(B, p / q) if p != 10 or rng.random() < .5 else A.unique_distance(B)
            ev.append({'ev': 'Lumps', 'd': sc(x), 'p': p, 'q': q, 'mean': sc(m), 'w': [int(k) for k in w]})


def mesh(ev, n, ends):
    for e in ends:
        r = np.asarray(gt.utilities.segment_ratios(n, end_length_ratio=e) if e != .02 else gt.utilities.segment_ratios(n), dtype=float)
        h = r[:(n + 1) // 2]
        ev.append({'ev': 'Mesh', 'n': n, 'end': round(e * 1e8), 'r': ints(r, 1e8), 'sign': ints(np.sign(r), 1.), 'q': ints(h[1:] / h[:-1], 1e6)})


def bad(ev):
    for n, e in ((0, .1), (-3, .1), (2.5, .1), (4., .1), (5, 0.), (5, -.1), (5, .5), (5, .7), (4, 1), (12, 0)):
        r, err = attempt(gt.utilities.segment_ratios, n, e)
        ev.append({'ev': 'Bad', 'n': str(n), 'e': str(e), 'err': err})


FUNCS = {'segments': segments, 'equivalent': equivalent, 'mesh': mesh, 'bad': bad}
CFG = '''CONSTANTS N = %d
W = %d
Mut = "%s"
SPECIFICATION Spec
INVARIANTS Tiling MeshLaws
'''


def main(chk):
    rng = chk.rng
    chk.design('MCSegments', CFG % ((5, 3, 'none') if chk.quick else (7, 3, 'none')), label='Segments')
    for m in ('own', 'middle'):
        chk.design('MCSegments', CFG % (3, 3, m), expect={'Tiling'}, label='Segments with ' + m)
    lump = 'CONSTANTS N = %d\nW = %d\nPMax = %d\nMut = "%s"\nSPECIFICATION Spec\nINVARIANTS Right Laws\n'
    chk.design('MCLump', lump % ((4, 14, 5, 'none') if chk.quick else (5, 22, 8, 'none')), label='Lumps of distances')
    for m in ('strict', 'chain', 'rest'):
        chk.design('MCLump', lump % (4, 14, 5, m), expect={'Right'}, label='Lumps with ' + m)
    ts = []
    for i in range(200 if chk.quick else 3000):
        ts.append((f'eq-{i}', 'equivalent', dict(seed=rng.getrandbits(30))))
    for i in range(250 if chk.quick else 4000):
        ts.append((f'seg-{i}', 'segments', dict(seed=rng.getrandbits(30), n=rng.choice([1, 2, 3, 4, 5, 8, 12, rng.randint(1, 30)]))))
    for n in range(1, 25 if chk.quick else 60):
        e = [.02, .001, .05, .12, .2, .3, .45] + [(1. + d) / n for d in (1e-7, -1e-7, 5e-6, -5e-6, .01, -.01, .2, -.2)] \
            + [rng.uniform(.001, .49) for _ in range(6)]
        e = [x for x in e if 0. < x < .5 and not .99e-6 < abs(1. - n * x) < 1.1e-6]
        ts.append((f'mesh-{n}', 'mesh', dict(n=n, ends=e)))
    ts.append(('bad', 'bad', {}))
    eps = chk.run(FUNCS, ts)
    chk.bounds = {'segments': '1 to 30, vertical and inclined, uniform, expanding and random ratios, nested',
                  'mesh': f'1 to {24 if chk.quick else 59} segments, expanding, contracting and next to uniform'}
    chk.validate('TraceSegments', eps)
