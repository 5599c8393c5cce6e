"""C16: histories of evaluations over lists of times."""
import random
import fields as fl
import c13
from evals import History
LOW, NT = 4, 8


def history(ev, seed, beh, field, bcs, methods):
    rng = random.Random(seed)
    eq = 'equivalent' in methods
    F = c13.configure(rng, field, 'MIFT' if 'MIFT' in bcs else bcs[0], 'equivalent' if eq else methods[0], False)
    F['opts'].pop('kClusters', None)
    F['opts'].pop('disTol', None)
    Fs = []
    for bc, m in zip(bcs, methods):
        f = {**F, 'bc': bc, 'method': m, 'opts': dict(F['opts'])}
        if m != 'detailed':
            f['opts']['disTol'] = 1e-7
        Fs.append(f)
    h = History(ev, rng, Fs, NT, LOW)
    for x in beh:
        h.evaluate(x['c'] - 1, x['how'], [k + 1 for k in x['ts']])
    h.inputs()
    if rng.random() < .3:
        h.reject()
    if rng.random() < .2:
        h.unscaled()


FUNCS = {'history': history}
CFG = '''CONSTANTS NT = %d
Thr = %d
MaxLen = %d
NEval = %d
NF = %d
Mut = "%s"
Gen = %s
SPECIFICATION Spec
INVARIANTS %s
'''
INV = 'InvValues InvOther InvPrefix InvOrigin'
MUTS = ('left', 'offset', 'cache', 'reads', 'column', 'late', 'raw', 'again', 'places')


def designs(chk):
    q = chk.quick
    chk.design('MCEval', CFG % (5 if q else 7, 2, 4 if q else 5, 2, 1, 'none', 'FALSE', INV), workers=2 if q else 4, timeout=800)
    for m in MUTS:
        chk.design('MCEval', CFG % (5, 2, 4, 2, 1, m, 'FALSE', INV), expect=INV.split(), label=f'MCEval, wrong {m}')


def main(chk):
    q = chk.quick
    designs(chk)
    n = 200 if q else 3000
    fields = chk.behaviours('MCFields', c13.CFG % (4, 2, 2, 2, 'DirsVert', 0, 0, 'none', 'TRUE', 'Emit'), simulate=(n * 2, 40), label='MCFields (fields)')
    beh = chk.behaviours('MCEval', CFG % (NT - 1, LOW - 1, 5, 4, 1, 'none', 'TRUE', 'Emit'), simulate=(n + 50, 10), label='MCEval (histories)')
    tasks = []
    for k in range(n):
        rng = chk.rng
        bcs = [fl.BCS[k % 3], rng.choice(fl.BCS)]
        m = [fl.METHODS[k // 3 % 3], rng.choice(fl.METHODS)]
        tasks.append((f'{bcs[0]}-{m[0]}-{k}', 'history', {'seed': rng.getrandbits(40), 'beh': beh[k % len(beh)], 'field': fields[k % len(fields)],
                                                          'bcs': bcs, 'methods': m}))
    eps = chk.run(FUNCS, tasks, limit=120.)
    chk.validate('TraceEval', eps)
    chk.bounds = {'histories': n, 'evaluations': 4, 'times': f'{NT}, {LOW} of which not above the threshold'}
