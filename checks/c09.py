"""C09: programs on borefields generated by MCBorefield."""
import os
import random
import tempfile
import numpy as np
from tv import load_repo, attempt
gt = load_repo()
BF, BH = gt.borefield.Borefield, gt.boreholes.Borehole
NAMES = ('H', 'D', 'r_b', 'x', 'y', 'tilt', 'orientation')


def world(rng, k):
    """k boreholes; most differ from an earlier one by a single parameter."""
    c = lambda *a: rng.choice(a)
    w = [[c(100., 150, 87.3), c(4., 1, 2.5), c(.075, .06), c(0., 5., -7), c(0., 3., 12), c(0., 0., .1), c(0., .7, -2., 3.)]]
    if rng.random() < .5:
        # values without a short decimal representation
        w[0] = [v * (1. + 1e-3 * rng.random()) for v in w[0]]
    while len(w) < k:
        b = list(rng.choice(w))
        i = rng.randrange(8)
        if i == 7:
            b[3:5] = b[3] + rng.uniform(3., 9.), b[4] - rng.uniform(1., 9.)
        else:
            b[i] = b[i] + (.1, .1, .003, .01, .01, .02, .05)[i]
        if i == 6 and b[5] == 0.:
            b[5] = .2
        # a vertical borehole has no orientation
        n = lambda q: [float(x) for x in q[:6]] + [float(q[6]) if q[5] else 0.]
        if all(n(b) != n(q) for q in w):
            w.append(b)
    return w


def program(ev, seed, ops, ns, extra=True):
    rng = random.Random(seed)
    w = world(rng, 5)
    objs = [BH(*b[:5], tilt=b[5], orientation=b[6]) for b in w]
    # the value of each parameter of a borehole (a vertical one is not oriented)
    ident = {tuple(float(x) for x in b[:6]) + ((float(b[6]) if b[5] else 0.),): i + 1 for i, b in enumerate(w)}

    def decode(t):
        return ident.get(tuple(float(x) for x in t), 0)

    def contents(f):
        if not isinstance(f, BF):
            return [-1]
        a = [np.asarray(getattr(f, n)) for n in NAMES]
        if any(x.ndim != 1 or len(x) != len(a[0]) for x in a):
            return [-2]
        return [decode(t) for t in zip(*a)]

    def bore(b):
        if not isinstance(b, BH) or bool(b.is_tilted()) != (b.tilt != 0.) or b.is_vertical() == b.is_tilted() \
                or b.position() != (b.x, b.y):
            return -1
        return decode([getattr(b, n) for n in NAMES])
    B = lambda i: objs[i - 1]

    def spoil(p):
        # the caller may reuse what it gave
        for q in p:
            if isinstance(q, np.ndarray):
                q[:] = 1 - q
            elif isinstance(q, list):
                q[:] = [.3] * len(q)

    def new(ids):
        f, p = build(ids)
        spoil(p)
        return f

    def build(ids):
        p = [[w[i - 1][j] for i in ids] for j in range(7)]
        form = rng.randrange(5)
        n = len(ids)
        if form == 0:
            return BF.from_boreholes([B(i) for i in ids]), []
        if form == 1:
            p = [np.array(q) for q in p]
        if form >= 2:
            # uniform parameters as scalars, x or y possibly among them
            for j in range(7):
                if all(q == p[j][0] for q in p[j]) and rng.random() < .8:
                    if j not in (3, 4) or n == 1 or isinstance(p[7 - j], (list, np.ndarray)):
                        p[j] = p[j][0]
                elif rng.random() < .5:
                    p[j] = np.array(p[j])
        if all(b == 0. for b in np.atleast_1d(p[5])) and rng.random() < .5:
            return BF(*p[:5]), p
        if rng.random() < .3:
            return BF(**{n: q for n, q in zip(NAMES, p)}), p
        return BF(*p[:5], tilt=p[5], orientation=p[6]), p
    slots = [BF.from_boreholes(B(1)) for _ in range(ns)]
    ev.append({'ev': 'Start', 'snap': [contents(f) for f in slots]})
    sl = lambda x: None if x == 999 else x
    tmp = tempfile.mkdtemp(prefix='bf')

    def do(o):
        op, r = o['op'], []
        s = slots[o['s'] - 1] if 's' in o else None
        ids = [B(i) for i in o['ids']] if 'ids' in o else []
        l0 = [id(x) for x in ids]
        f, err = None, ''
        b = B(o['id']) if 'id' in o else None
        call = {
            'new': lambda: new(o['ids']),
            'slice': lambda: s[sl(o['a']):sl(o['b']):sl(o['st'])],
            'take': lambda: s[o['ix'] if rng.random() < .5 else np.array(o['ix'])],
            'mask': lambda: s[np.array(o['ix'], dtype=bool)],
            'add': lambda: s + slots[o['t'] - 1],
            'addb': lambda: s + b, 'raddb': lambda: b + s, 'addl': lambda: s + ids, 'raddl': lambda: ids + s,
            'bb': lambda: b + B(o['id2']), 'bl': lambda: b + ids, 'lb': lambda: ids + b,
        }.get(op)
        if call:
            f, err = attempt(call)
        elif op == 'rt':
            lst = s.to_boreholes()
            r = [bore(x) for x in lst]
            f = BF.from_boreholes(lst[0] if len(lst) == 1 and rng.random() < .5 else lst)
            for x in lst:
                x.x, x.H = x.x + 3., 11.
        elif op == 'file':
            p = os.path.join(tmp, 'f.txt')
            s.to_file(p)
            if all(x.tilt == 0. and x.orientation == 0. for x in s) and rng.random() < .8:
                # files of earlier versions have no columns for inclinations
                rows = [ln.split() for ln in open(p) if not ln.startswith('#')]
                with open(p, 'w') as g:
                    g.write('# x y H D r_b\n' + '\n'.join('\t'.join(w[:5]) for w in rows) + '\n')
            f = BF.from_file(p) if rng.random() < .6 else BF.from_boreholes(gt.boreholes.field_from_file(p))
        elif op == 'item':
            r = [bore(s[o['i'] if rng.random() < .5 else np.int64(o['i'])])]
        elif op == 'iter':
            r = [bore(x) for x in (s if rng.random() < .5 else s.to_boreholes())]
        elif op in ('eq', 'eqb', 'eql'):
            t = slots[o['t'] - 1] if op == 'eq' else b if op == 'eqb' else ids
            r = [int(s == t), int(s != t)]
        elif op == 'bad':
            f, err = attempt([lambda: s + 3, lambda: 3. + s, lambda: s + 'a', lambda: b + 3, lambda: 3. + b,
                              lambda: s + None, lambda: 'a' + b][o['i']])
        elif op == 'badindex':
            f, err = attempt(lambda: s[o['i']])
        elif op == 'use':
            attempt(lambda: s.evaluate_g_function(1e-6, np.array([1e7, 1e8]), method='detailed', boundary_condition='UHTR',
                                                  options={'nSegments': 1}))
        elif op == 'show':
            r = show(s, o['i'])
        if op in MAKES and f is not None:
            slots[o['d'] - 1] = f
        ev.append({'ev': 'Op', 'o': o, 'err': err, 'r': r, 'snap': [contents(f) for f in slots],
                   'lens': [[len(f), int(f.nBoreholes)] for f in slots], 'lists': [id(x) % 10**6 for x in ids],
                   'lists0': [x % 10**6 for x in l0]})

    def show(f, which):
        """Boreholes of the lines of the figure: at the head, and at the bottom."""
        fig = f.visualize_field() if which else gt.boreholes.visualize_field(f.to_boreholes())
        from matplotlib import pyplot as plt
        # lines in the order they were drawn; the heads are single markers
        ax1, ax2 = fig.axes
        heads, lines, ends = [], [], []
        for ln in ax1.lines:
            x, y = (np.atleast_1d(q) for q in ln.get_data())
            if ln.get_marker() == 'o':
                heads += [(a, c) for a, c in zip(x, y)]
            else:
                lines.append((x[0], y[0], x[1], y[1]))
        for ln in ax2.lines:
            x, y, z = ln.get_data_3d()
            if ln.get_marker() != 'o':
                ends.append((x[0], y[0], z[0], x[1], y[1], z[1]))
        texts = [(t.get_position(), t.get_text()) for t in ax1.texts]
        plt.close(fig)
        out, out2 = [], []
        n = len(f)
        for i in range(n):
            tops, bots = [], []
            for j, q in enumerate(w):
                H, D, _, x, y, t, a = (float(z) for z in q)
                a = a if t else 0.
                e = (x + H * np.sin(t) * np.cos(a), y + H * np.sin(t) * np.sin(a), D + H * np.cos(t))
                ok = np.allclose(heads[i], (x, y)) and np.allclose(lines[i], (x, y, *e[:2])) \
                    and np.allclose(ends[i], (x, y, D, *e)) and texts[i][1].strip() == str(i) and np.allclose(texts[i][0], (x, y))
                if ok:
                    tops.append(j + 1)
            ids = contents(f)
            # several boreholes may look alike
            out.append(ids[i] if ids[i] in tops and len(heads) == len(lines) == len(ends) == n else 0)
        return out + out

    try:
        for o in ops:
            do(o)
            if not extra:
                continue
            # queries in between
            s = rng.randint(1, ns)
            n = len(slots[s - 1])
            q = rng.random()
            if q < .2 and n:
                do({'op': 'item', 's': s, 'i': rng.randint(-n, n - 1)})
            elif q < .35:
                do({'op': 'iter', 's': s})
            elif q < .6:
                # a field often compared with one that it equals
                k = rng.random()
                c = contents(slots[s - 1])
                if k < .4:
                    do({'op': 'eq', 's': s, 't': rng.randint(1, ns)})
                elif k < .5 or not all(x > 0 for x in c):
                    do({'op': 'eqb', 's': s, 'id': rng.randint(1, 5)})
                else:
                    if rng.random() < .6 and c:
                        c[rng.randrange(len(c))] = rng.randint(1, 5)
                    elif rng.random() < .3:
                        c = c[::-1]
                    do({'op': 'eql', 's': s, 'ids': c or [1]})
            elif q < .67:
                do({'op': 'bad', 's': s, 'id': 1, 'i': rng.randrange(7)})
            elif q < .72:
                do({'op': 'badindex', 's': s, 'i': rng.choice([n, n + 2, -n - 1])})
            elif q < .75 and 0 < n < 4:
                do({'op': 'use', 's': s})
            elif q < .758 and n:
                do({'op': 'show', 's': s, 'i': rng.randint(0, 1)})
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


MAKES = {'new', 'slice', 'take', 'mask', 'add', 'addb', 'raddb', 'addl', 'raddl', 'bb', 'bl', 'lb', 'rt', 'file'}
FUNCS = {'program': program}
CFG = '''CONSTANTS NS = %d
NB = %d
MaxLen = %d
Mut = "%s"
Gen = %d
SPECIFICATION Spec
INVARIANTS InvValues InvLaws
CONSTRAINT %s
'''


def main(chk):
    chk.design('MCBorefield', CFG % (2, 2, 3 if chk.quick else 4, 'none', 0, 'Bound'), label='Borefield values')
    for m in ('extend', 'swap', 'wrap', 'set'):
        chk.design('MCBorefield', CFG % (2, 2, 3, m, 0, 'Bound'), expect={'InvValues'}, label='Borefield with ' + m)
    depth = 14 if chk.quick else 30
    beh = chk.behaviours('MCBorefield', CFG % (3, 5, 8, 'none', depth, 'Emit'), label='Borefield programs',
                         simulate=(250 if chk.quick else 3000, 10 * depth))
    ts = [(f'prog-{i}', 'program', dict(seed=chk.rng.getrandbits(30), ops=b, ns=3)) for i, b in enumerate(beh)]
    eps = chk.run(FUNCS, ts)
    chk.bounds = {'programs': f'{len(beh)} programs of {depth} operations on 3 fields of up to 8 boreholes, queries in between'}
    chk.validate('TraceBorefield', eps)
