"""C17: networks with variable mass flow rates."""
import random
import numpy as np
import fields as fl
import c13
import c15
import c16
from tv import ints
from evals import History, BIG
LOW, NT, NF = 3, 6, 3


def flows(ev, seed, beh, field, method, tilted=False):
    rng = random.Random(seed)
    F = c13.configure(rng, field, 'MIFT', method, False)
    if method != 'equivalent':
        F['opts'].pop('disTol', None)
        if method == 'similarities':
            F['opts']['disTol'] = 1e-7
    F['opts'].pop('approximate_FLS', None)
    n, nc = len(F['b']), len(c13.circuits(F))
    sign = rng.choice([1, 1, -1])
    F.pop('m', None), F.pop('mb', None)
    base = rng.sample([.05, .1, .2, .3, .45, .6], NF)
    if rng.random() < .5:
        pool = [sign * x * nc for x in base]
        F['m'] = pool[0]
    elif method == 'equivalent':
        pool = [[sign * x] * nc for x in base]
        F['mb'] = pool[0]
    else:
        pool = [[sign * x * rng.choice([1., 1., .5, 1.6]) for _ in range(nc)] for x in base]
        if rng.random() < .3 and nc > 1:
            # flow rates of the same total
            pool[1] = pool[0][1:] + pool[0][:1]
        F['mb'] = pool[0]
    ids = list(range(1, NF + 1))
    for i in range(NF):
        for j in range(i):
            if pool[i] == pool[j]:
                ids[i] = ids[j]
    h = History(ev, rng, [F], NT, LOW, flows=[pool])
    rs = h.rs[0]
    for k, x in enumerate(beh):
        ts = [i + 1 for i in x['ts']]
        f = [ids[i - 1] for i in x['f']]
        if k == len(beh) - 1:
            # the constant flow rates
            for i in sorted(set(f)):
                h.evaluate(0, 'new', ts, i)
        g = h.evaluate(0, x['how'], ts, f)
        sc = h.sg
        last = [p for p in range(len(ts)) if ts[p] >= LOW]
        if last and (len(ts) > 1):
            p = rng.choice(last)
            _, Fr = h.last
            exp, wide = [], 0.
            for j in range(len(f)):
                y = fl.profiles(Fr, g, Fr['t'][p], j)
                T = np.concatenate([a[3][:len(r)] for a, r in zip(y, rs)])
                exp.append([])
                for i in range(len(f)):
                    Fi = {**F}
                    Fi['m' if 'm' in F else 'mb'] = pool[f[i] - 1]
                    _, tin, tout, kr = c15.network_rates(Fi, T, rs)
                    exp[j].append(.5 * (tin + tout) - kr)
                    wide = max(wide, max(abs(tin), abs(tout), kr) * sc[i][j][p])
            ev.append({'ev': 'Def', 'p': p + 1, 'g': [[ints(exp[j][i] * sc[i][j][p], 1., cap=BIG, nan=BIG) for j in range(len(f))] for i in range(len(f))],
                       'tol': 10 + int(min(wide, 1e11) * 1e-7), 'wide': bool(wide > 1e9)})
    h.inputs()


FUNCS = {'flows': flows}


def main(chk):
    q = chk.quick
    c16.designs(chk)
    n = 200 if q else 3000
    fields = chk.behaviours('MCFields', c13.CFG % (4, 2, 2, 2, 'DirsVert', 0, 0, 'none', 'TRUE', 'Emit'), simulate=(n * 2, 40), label='MCFields (networks)')
    beh = chk.behaviours('MCEval', c16.CFG % (NT - 1, LOW - 1, 4, 2, NF, 'none', 'TRUE', 'Emit'), simulate=(n + 50, 10), label='MCEval (lists of flow rates)')
    tasks = []
    for k in range(n):
        m = fl.METHODS[k % 3]
        tasks.append((f'{m}-{k}', 'flows', {'seed': chk.rng.getrandbits(40), 'beh': beh[k % len(beh)], 'field': fields[k % len(fields)], 'method': m}))
    eps = chk.run(FUNCS, tasks, limit=120.)
    chk.validate('TraceEval', eps)
    chk.bounds = {'histories': n, 'flow rates': '1 to 3 in each list', 'times': f'{NT}, {LOW} of which not above the threshold'}
    chk.assumptions = ['heat rates of networks (C04) are those of the library, judged by their own check']
