"""C14: the similarities and equivalent solvers against the detailed solver."""
import math
import random
import numpy as np
from tv import ints, scale_of
import fields as fl
import c13


def compare(ev, seed, beh, bc, tilted, eq):
    rng = random.Random(seed)
    F = c13.configure(rng, beh, bc, 'equivalent' if eq else 'similarities', tilted)
    n = len(F['b'])
    if rng.random() < .8:
        # exact lattice, so that different pairs have the same distances and directions
        jit = 0.
    else:
        jit = rng.choice([.2, .001])
    d = rng.uniform(9., 14.) if tilted else rng.uniform(3., 9.)
    diag = rng.choice([0., math.pi / 4, math.pi / 4, .3])
    rad = bc == 'MIFT' and eq
    rb = .075 if bc == 'MIFT' else rng.choice([.05, .075, .1])
    D = c13.dims(rng, 3, bc != 'MIFT')
    til = rng.uniform(.05, .3)
    tils = [til, til if rng.random() < .6 else rng.uniform(.05, .3), til]
    while True:
        b = []
        for p in beh['f']:
            o = list(D[p['d'] - 1]) + [(p['x'] + rng.uniform(-jit, jit)) * d, (p['y'] + rng.uniform(-jit, jit)) * d]
            if bc == 'MIFT':
                o[2] = rb
            if tilted and p['a'] >= 0:
                o += [tils[p['d'] - 1], p['a'] * math.pi / 2 + diag]
            b.append(o)
        if all(c13.gap(b[i], b[j]) > (7. if tilted else .5) for i in range(n) for j in range(i)):
            break
        d += .5
        tils = [max(.03, x * .95) for x in tils]
    F['b'] = b
    if tilted:
        # short segments next to others are not integrated well
        F['opts']['mQuad'] = 101
        if rng.random() < .2:
            # the approximation of inclined sources is not exactly reciprocal
            F['opts'].update(approximate_FLS=True, nFLS=rng.randint(10, 24))
        if F.get('ratios', 'default') is not None:
            F['n'] = min(F['n'], 2) if isinstance(F['n'], int) else [min(x, 2) for x in F['n']]
            F['ratios'] = None
    F['t'] = c13.times(rng, F)
    if eq:
        F['opts']['kClusters'] = rng.choice([100, 100, 100, 1, 2])
        F['opts'].pop('approximate_FLS', None), F['opts'].pop('nFLS', None)
    dim = [[x[0], x[1], x[2]] for x in b]
    ev.append({'ev': 'Field', 'n': n, 'd': [[int(round(1e4 * math.hypot(p[3] - q[3], p[4] - q[4]))) for q in b] for p in b],
               'dim': [dim.index(x) for x in dim]})
    B = {**F, 'method': 'detailed'}
    B['opts'] = {k: v for k, v in F['opts'].items() if k in ('mQuad', 'approximate_FLS', 'nFLS')}
    g, Q, T, sq, st = c13.solution(B)
    sc = scale_of(g, T), scale_of(Q)

    def rec(e, g, Q, T, sq, st):
        ev.append({**e, 'tol': 60 if not tilted else 2000 if 'nFLS' in F['opts'] else 300, 'g': ints(g, sc[0]), 'q': ints(Q, sc[1]), 't': ints(T, sc[0]),
                   'sq': [ints(x, sc[1]) for x in sq], 'st': [ints(x, sc[0]) for x in st]})
    rec({'ev': 'Base'}, g, Q, T, sq, st)
    for m in (['similarities', 'equivalent'] if eq else ['similarities']):
        O = {**F, 'method': m}
        if m != 'equivalent':
            O['opts'] = {k: v for k, v in F['opts'].items() if k != 'kClusters'}
        x = fl.build(O)
        rec({'ev': 'Other', 'method': m, 'grp': fl.groups(O, x)}, *c13.solution(O, x))


FUNCS = {'compare': compare}
PAIRS = '''CONSTANTS NB = %d
Cols = %d
Tops = {0, 1}
Parts <- %s
M = 6
Mut = "%s"
SPECIFICATION Spec
INVARIANTS InvPartition InvValues
'''
GROUPS = '''CONSTANTS N = %d
X = 2
Y = %d
M = 12
Mut = "%s"
SPECIFICATION Spec
INVARIANTS InvQuotient InvReciprocal InvSingle
'''


def main(chk):
    q = chk.quick
    chk.design('MCPairs', PAIRS % (3, 2, 'PartsA', 'none'))
    if not q:
        chk.design('MCPairs', PAIRS % (3, 3, 'PartsB', 'none'), label='MCPairs (mixed lengths)', workers=6, timeout=900)
        chk.design('MCPairs', PAIRS % (4, 3, 'PartsA', 'none'), label='MCPairs (4 boreholes)', workers=6, timeout=900)
    else:
        chk.design('MCPairs', PAIRS % (2, 2, 'PartsC', 'none'), label='MCPairs (mixed lengths)')
    for m in ('real', 'image', 'lengths', 'depths', 'ratios', 'reverse', 'distance', 'ratio'):
        chk.design('MCPairs', PAIRS % (3, 2, 'PartsA', m), expect=['InvValues'], label=f'MCPairs, wrong {m}')
    chk.design('MCGroups', GROUPS % (4 if q else 5, 1, 'none'), workers=2 if q else 4, timeout=900)
    for m in ('any', 'self', 'half', 'source'):
        chk.design('MCGroups', GROUPS % (4, 1, m), expect=['InvQuotient', 'InvReciprocal'], label=f'MCGroups, wrong {m}')
    n = 150 if q else 2000
    tasks = []
    for mode in ('vertical', 'equivalent', 'tilted'):
        cfg = c13.CFG % (4 if mode == 'tilted' else 6, 2, 2, 2 if mode == 'tilted' else 3, 'DirsMany', 0, 0, 'none', 'TRUE', 'Emit')
        beh = chk.behaviours('MCFields', cfg, simulate=(n * 3, 40), label='MCFields (fields)')
        beh = [b for b in beh if len(b['f']) > (2 if mode == 'tilted' else 1)]
        if not q and mode != 'tilted':
            beh += chk.behaviours('MCFields', c13.CFG % (10, 3, 3, 2, 'DirsVert', 0, 0, 'none', 'TRUE', 'Emit'), simulate=(n, 60), label='MCFields (large fields)')
        chk.rng.shuffle(beh)
        for k, b in enumerate(beh[:n // 2 if mode == 'tilted' else n]):
            bc = fl.BCS[k % 3]
            tasks.append((f'{mode}-{bc}-{k}', 'compare', {'seed': chk.rng.getrandbits(40), 'beh': b, 'bc': bc, 'tilted': mode == 'tilted', 'eq': mode == 'equivalent'}))
    eps = chk.run(FUNCS, tasks, limit=120.)
    chk.validate('TraceSimilar', eps)
    ns = sum(1 for e in eps for x in e['events'] if x['ev'] == 'Other' and x['method'] == 'equivalent' and max(x['grp']) < len(x['grp']))
    chk.bounds = {'fields': len(tasks), 'equivalent solutions with groups of several boreholes': ns}
    chk.assumptions = ['distances are merged only when equal within 1e-7 (disTol)',
                       'equivalent boreholes are judged when each borehole of a group sees the same distances to every group']
