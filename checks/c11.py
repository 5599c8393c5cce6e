"""C11: all small fields with duplicates, and larger ones at random."""
import contextlib
import io
import math
import random
from tv import load_repo, ints
gt = load_repo()
BF, BH = gt.borefield.Borefield, gt.boreholes
U = 1. / 1024.       # m, coordinates are exact


def observe(ev, pos, rb, clusters, form, disp):
    bores = [BH.Borehole(100. + k, 4., r * U, x * U, y * U, *((.1, float(k)) if k % 3 == 1 else ()))
             for k, ((x, y), r) in enumerate(zip(pos, rb))]
    snap = [vars(b).copy() for b in bores]
    field = BF.from_boreholes(bores) if form == 'field' else list(bores)

    def which(bs):
        return [next((k + 1 for k, s in enumerate(snap) if all(getattr(b, n) == v for n, v in s.items())), 0) for b in bs]
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        pairs = BH.find_duplicates(field, **({'disp': True} if disp else {}))
        left = BH.remove_duplicates(field, **({'disp': True} if disp else {}))
        again = BH.find_duplicates(left) if len(left) > 1 else []
        left2 = BH.remove_duplicates(left) if len(left) > 1 else left
    ev.append({'ev': 'Dup', 'pos': pos, 'rb': rb, 'clusters': clusters, 'form': form,
               'pairs': [[int(a), int(b)] for a, b in pairs], 'kept': which(left), 'kept2': which(left2),
               'again': [[int(a), int(b)] for a, b in again], 'after': which(field)})


def batch(ev, seed, wheres):
    rng = random.Random(seed)
    for where in wheres:
        n = len(where)
        rb = [rng.choice([64, 77, 51])] * n if rng.random() < .6 else [rng.choice([64, 77, 51, 30]) for _ in where]
        rmax = max(rb)
        k = max(where)
        mode = rng.randrange(3)
        if mode == 2:
            # at and next to the limit
            c = [(0, 0)]
            while len(c) < k:
                x, y = rng.choice(c)
                dx, dy = rng.choice([(rmax, 0), (0, rmax), (0, -rmax - 1), (rmax - 1, 0), (-rmax, 0), (2 * rmax, 0)])
                c.append((x + dx, y + dy))
            pos = [list(c[w - 1]) for w in where]
            clusters = False
        else:
            c = [(rng.randint(-9000, 9000), rng.randint(-9000, 9000)) for _ in range(k)]
            while any(math.dist(p, q) < 4 * rmax for i, p in enumerate(c) for q in c[:i]):
                c = [(rng.randint(-9000, 9000), rng.randint(-9000, 9000)) for _ in range(k)]
            j = 0 if mode == 0 else rmax // 3 - 1
            pos = [[c[w - 1][0] + rng.randint(-j, j), c[w - 1][1] + rng.randint(-j, j)] for w in where]
            clusters = True
        observe(ev, pos, rb, clusters, rng.choice(['list', 'field']), rng.random() < .1)


def distances(ev, seed):
    rng = random.Random(seed)
    d, w = [], []
    for _ in range(20):
        p, q = [[rng.choice([0, 0, rng.randint(-3000, 3000)]) for _ in range(2)] for _ in range(2)]
        if rng.random() < .3:
            q = [p[0] + rng.randint(-90, 90), p[1]]
        r, s = rng.choice([51, 64, 77]), rng.choice([51, 64, 77])
        b = BH.Borehole(100., 4., r * U, p[0] * U, p[1] * U)
        t = BH.Borehole(30., 1., s * U, q[0] * U, q[1] * U)
        d += [b.distance(t), b.distance(b)]
        w += [max(r, math.dist(p, q)) * U, r * U]
    ev.append({'ev': 'Dist', 'd': ints(d, 1e6), 'w': ints(w, 1e6)})


def big(ev, seed, n, k):
    """A field of n boreholes with k duplicates, far along in the list."""
    rng = random.Random(seed)
    side = math.isqrt(n - k - 1) + 1
    where = list(range(n - k))
    rng.shuffle(where)
    for _ in range(k):
        where.insert(rng.randint(0, len(where)), rng.choice(where))
    b = [BH.Borehole(100. + i, 4., .075, 5. * (w % side), 5. * (w // side)) for i, w in enumerate(where)]
    pairs = sorted([int(a), int(c)] for a, c in BH.find_duplicates(BF.from_boreholes(b)))
    left = [round(x.H - 100.) for x in BH.remove_duplicates(b)]
    first = {}
    for i, w in enumerate(where):
        first.setdefault(w, []).append(i)
    want = sorted([x, y] for v in first.values() for i, x in enumerate(v) for y in v[i + 1:])
    ev.append({'ev': 'Big', 'pairs': pairs, 'want': want, 'kept': left,
               'left': [i for i, w in enumerate(where) if first[w][0] == i]})


FUNCS = {'batch': batch, 'distances': distances, 'big': big}
CFG = '''CONSTANTS N = %d
K = %d
Mut = "%s"
Gen = %s
SPECIFICATION Spec
INVARIANTS InvFound InvKept InvClusters
%s
'''


def main(chk):
    chk.design('MCDuplicates', CFG % (4 if chk.quick else 6, 4, 'none', 'FALSE', ''), label='Duplicates')
    for m in ('first', 'both', 'next', 'shift'):
        chk.design('MCDuplicates', CFG % (4, 3, m, 'FALSE', ''), expect={'InvFound', 'InvKept', 'InvClusters'},
                   label='Duplicates with ' + m)
    wheres = chk.behaviours('MCDuplicates', CFG % (6 if chk.quick else 8, 3, 'none', 'TRUE', 'CONSTRAINTS Emit Start'), label='Duplicates, fields')
    wheres = [w for w in wheres if len(w) > 1]
    # every field in several forms
    wheres *= 3
    ts = [(f'batch-{i}', 'batch', dict(seed=chk.rng.getrandbits(30), wheres=wheres[i:i + 40])) for i in range(0, len(wheres), 40)]
    for i in range(5):
        ts.append((f'dist-{i}', 'distances', dict(seed=chk.rng.getrandbits(30))))
    for i in range(6 if chk.quick else 40):
        ts.append((f'big-{i}', 'big', dict(seed=chk.rng.getrandbits(30), n=chk.rng.randint(50, 900), k=chk.rng.randint(1, 30))))
    eps = chk.run(FUNCS, ts)
    chk.bounds = {'fields': f'all fields of up to {6 if chk.quick else 8} boreholes at 3 places, exact, jittered and at the limit of the radius; fields of up to 900 boreholes'}
    chk.validate('TraceDuplicates', eps)
