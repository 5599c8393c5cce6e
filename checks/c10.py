"""C10: every layout of every (small) size against the lattice of Layouts.tla."""
import math
import random
import numpy as np
from tv import load_repo, ints, attempt
gt = load_repo()
BF, BH = gt.borefield.Borefield, gt.boreholes
KINDS = ['rectangle', 'staggered', 'dense', 'L', 'U', 'box']
NAME = {'rectangle': 'rectangle_field', 'staggered': 'staggered_rectangle_field', 'dense': 'dense_rectangle_field',
        'L': 'L_shaped_field', 'U': 'U_shaped_field', 'box': 'box_shaped_field', 'circle': 'circle_field'}


def observe(f, dims, sx, sy, unit):
    """Positions, directions of lean in lattice units, tilts, equal dimensions."""
    n = len(f)
    b = list(f)
    pos = [[x.x * unit / sx, x.y * unit / sy] for x in b]
    lean = []
    for x in b:
        u = (math.sin(x.tilt) * math.cos(x.orientation) / sx, math.sin(x.tilt) * math.sin(x.orientation) / sy)
        h = math.hypot(*u)
        lean.append([10000. * v / h for v in u] if abs(x.tilt) > 1e-6 else [0., 0.])
    same = [int((x.H, x.D, x.r_b) == dims and x.is_tilted() == (x.tilt != 0.)) for x in b]
    return dict(pos=ints(pos, 1.), lean=ints(lean, 1.), tilts=ints([x.tilt for x in b], 1e6), dims=same)


def both(ev, base, make, dims, sx, sy, unit, ordered=True):
    for form in ('class', 'list'):
        f = make(form)
        if isinstance(f, BF) != (form == 'class'):
            raise TypeError(str(type(f)))
        ev.append(dict(base, ordered=ordered or form == 'class', form=form, **observe(f, dims, sx, sy, unit)))


def lattice(ev, kind, n, m, last, B, dims, tilt, origin, off, pos=True):
    """origin: None or lattice coordinates; off: the origin lies next to that
    place, within (1) or beyond (2) the radius of a borehole."""
    B1, B2 = B
    if kind == 'dense':
        # documented spacing of the rows
        B2 = math.sqrt(3.) / 2. * B1 if n > 1 else B1
    sx, sy = B1 / 4., B2 / 2.
    o = None if origin is None else (origin[0] * sx + (0., .5, 2.)[off] * dims[2], origin[1] * sy)

    def make(form):
        f = getattr(BF if form == 'class' else BH, NAME[kind])
        a = [n, m] + ([B1] if kind == 'dense' else [B1, B2]) + list(dims)
        if kind in ('staggered', 'dense'):
            a.append(last)
        k = {}
        if tilt or not pos:
            k['tilt'] = tilt
        if o is not None:
            k['origin'] = o
        if pos:
            a, k = a + [k[x] for x in ('tilt',) if x in k], {x: k[x] for x in k if x != 'tilt'}
        return f(*a, **k)
    base = {'ev': 'Lattice', 'kind': kind, 'n': n, 'm': m, 'last': last, 'tilt': round(tilt * 1e6),
            'origin': origin or [], 'off': off}
    # the list of the box layout is not listed row by row
    both(ev, base, make, dims, sx, sy, 1000., ordered=kind != 'box')


def circle(ev, n, R, dims, tilt, origin):
    o = None if origin is None else (origin[0] * R / 10000., origin[1] * R / 10000.)

    def make(form):
        f = getattr(BF if form == 'class' else BH, NAME['circle'])
        return f(n, R, *dims, tilt=tilt, origin=o) if o else f(n, R, *dims, tilt)
    both(ev, {'ev': 'Circle', 'n': n, 'tilt': round(tilt * 1e6), 'origin': origin or [0, 0]}, make, dims, R, R, 10000.)


def batch(ev, cases):
    for c in cases:
        (circle if c['kind'] == 'circle' else lattice)(ev, **{k: tuple(v) if k == 'dims' else v for k, v in c.items()
                                                                 if c['kind'] != 'circle' or k != 'kind'})


def winds(ev, seed):
    rng = random.Random(seed)
    names = ['E', 'ENE', 'NE', 'NNE', 'N', 'NNW', 'NW', 'WNW', 'W', 'WSW', 'SW', 'SSW', 'S', 'SSE', 'SE', 'ESE']
    names += [''.join(rng.choice('NESW') for _ in range(rng.randint(1, 4))) for _ in range(12)]
    names += ['', 'EN', 'NEE', 'NS', 'NEN', 'EAST', 'N ', 'WNN', 'SEE', 'X']
    for w in names:
        form = rng.choice([str.upper, str.lower, str.title])
        a, err = attempt(gt.utilities.cardinal_point, form(w))
        e = {'ev': 'Wind', 'w': list(w), 'err': err, 'angle': 0, 'lean': [0, 0]}
        if not err:
            x0, y0, t, H = rng.uniform(-9., 9.), rng.uniform(-9., 9.), rng.uniform(.1, .6), rng.uniform(20., 200.)
            s = BH.Borehole(H, 2., .075, x0, y0, tilt=t, orientation=a).segments(2)[1]
            d = .5 * H * math.sin(t)
            e['angle'] = ints(a * 8. / math.pi, 1e6)
            e['lean'] = ints([(s.x - x0) / d, (s.y - y0) / d], 1e4)
        ev.append(e)


FUNCS = {'batch': batch, 'winds': winds}
CFG = '''CONSTANTS NMax = %d
Mut = "%s"
SPECIFICATION Spec
INVARIANTS Placed Distinct Counted Central Compass
'''


def main(chk):
    rng = chk.rng
    chk.design('MCLayouts', CFG % (5 if chk.quick else 9, 'none'), label='Layouts')
    for m in ('single', 'parity', 'narrow', 'top'):
        chk.design('MCLayouts', CFG % (4, m), expect={'Placed', 'Distinct', 'Counted', 'Central'}, label='Layouts with ' + m)
    chk.design('MCLayouts', CFG % (2, 'winds'), expect={'Compass'}, label='Layouts with winds')
    N = 6 if chk.quick else 11
    cases = []
    dim = lambda: [rng.choice([100., 150.5, 37.]), rng.choice([4., 0.5, 2.]), rng.choice([.075, .05])]
    for kind in KINDS:
        for n in range(1, N + 1):
            for m in range(1, N + 1):
                for last in ((False, True) if kind in ('staggered', 'dense') else (False,)):
                    c = dict(kind=kind, n=n, m=m, last=last, off=0)
                    B = lambda: [rng.choice([4., 5., 7.5, 6.3]), rng.choice([4., 5., 8.25, 10.])]
                    t = lambda: rng.choice([.1, .3, math.pi / 15])
                    o = lambda: rng.choice([[4 * rng.randint(-1, n), 2 * rng.randint(-1, m)],
                                            [rng.randint(-3, 4 * n), rng.randint(-3, 2 * m)]])
                    at = lambda: [4 * rng.randrange(n), 4 * rng.randrange((m + 1) // 2)]
                    cases.append(dict(c, B=B(), dims=dim(), tilt=0., origin=None))
                    cases.append(dict(c, B=B(), dims=dim(), tilt=t(), origin=None, pos=rng.random() < .5))
                    cases.append(dict(c, B=B(), dims=dim(), tilt=t(), origin=o(), pos=rng.random() < .5))
                    if kind in ('staggered', 'dense') and n > 1 and m > 1:
                        # the origin on the place of a last borehole
                        cases.append(dict(c, B=B(), dims=dim(), tilt=t(), origin=[4 * n - 2, 2]))
                    k = rng.randint(1, 2)
                    cases.append(dict(c, B=B(), dims=dim(), tilt=t(), origin=at(), off=k))
    for n in list(range(1, 13 if chk.quick else 60)):
        for _ in range(2):
            R = rng.choice([5., 12.5, 3.3])
            cases.append(dict(kind='circle', n=n, R=R, dims=dim(), tilt=rng.choice([0., .2]), origin=None))
            # the origin on the first borehole, or elsewhere
            cases.append(dict(kind='circle', n=n, R=R, dims=dim(), tilt=.2,
                              origin=rng.choice([[10000, 0], [rng.randint(-9999, 9999), rng.randint(-20000, 20000)]])))
    rng.shuffle(cases)
    ts = [(f'batch-{i}', 'batch', dict(cases=cases[i:i + 12])) for i in range(0, len(cases), 12)]
    ts += [(f'winds-{i}', 'winds', dict(seed=rng.getrandbits(30))) for i in range(4 if chk.quick else 40)]
    eps = chk.run(FUNCS, ts)
    chk.bounds = {'layouts': f'all sizes up to {N} x {N}, with and without tilt, center, lattice and offset origins; {len(cases)} cases, both forms'}
    chk.validate('TraceLayouts', eps)
