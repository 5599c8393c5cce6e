"""C04: mass and energy balances of networks of any pipes."""
from c03 import FUNCS, designs, variants, chain_vector


def main(chk):
    accepted = sorted(designs(chk).result().strings('BEH'), key=lambda c: (len(c), c))
    rng = chk.rng
    ts = []
    vec = accepted * (2 if chk.quick else 12)
    vec += [chain_vector(rng, rng.randint(5, 8)) for _ in range(40 if chk.quick else 500)]
    for i, c in enumerate(vec):
        for j, v in enumerate(variants(rng, c, True)):
            ts.append((f'net-{i}-{j}', 'network', v))
    eps = chk.run(FUNCS, ts)
    chk.bounds = {'networks': f'{len(eps)} networks: all accepted vectors n <= 4 and random ones up to n = 8'}
    chk.validate('TraceNetwork', eps)
