import catalog as K
from prog import run_program

BOUNDS = dict(
    quick='one half of operation catalogue x 21 sparsity structures (the other half is in C03) at one of 5 rotating thresholds; one operation of each rule x 21 structures x thresholds 0.3, 0.5, 2, 4, 6, 100; 28 operand pairings x thresholds 1, 3, 100; 16 operations of three or four arguments x all triples of 10 operand structures (all for one operation, every fifth combination for the others); eager and compiled',
    thorough='as quick, thresholds 0..6, fractions and 100, plus one further operation of each rule on every new sparsity state (and another on every new state after that)',
)
CHUNK = 8


def roots(tier):
    i = 0
    for p, (ins, pre, sh) in K.PRELUDES.items():
        a = f'v[{len(ins) + len(pre) - 1}]'
        for e in dict.fromkeys(K.all_unary(a, sh)):
            i += 1
            if tier == 'quick' and not (i + len(p)) % 2:
                continue  # (this half is explored by the quick tier of C03)
            if tier == 'quick':
                tm = [['100j'], ['3e'], ['100e'], ['2j'], ['1j']][i // 2 % 5]
            else:
                tm = ['0j', '1j', '2e', '3j', '4e', '6j', '0.5j', '100e', '100j']
            yield {'in': ins, 'prog': pre + [e], 'tm': tm}
        for e in K.compact(a, sh):
            q = ['0.3j', '0.5e', '2j', '4j', '6j', '100e'] if tier == 'quick' else None
            yield {'in': ins, 'prog': pre + [e], 'tm': q or ['0j', '0.3j', '0.5e', '0.99j', '1j', '2j', '3j', '4j', '5j', '6j', '1000j'], 'signed': True}
    for p, (ins, pre, a, b, sa, sb) in K.PAIRS.items():
        for e in K.binary(a, b):
            yield {'in': ins, 'prog': pre + [e], 'tm': ['1j', '3e', '100j'] if tier == 'quick' else ['1j', '2e', '3j', '100j']}


    for names, t, e in K.ternary():
        i += 1
        if tier == 'quick' and t and (sum(n in ('part', 'col', 'scal') for n in names) > 1 or (i + i // 16) % 5):
            continue
        yield {'in': [[3], [3]], 'prog': [e], 'tm': [['100e'], ['100j'], ['3e'], ['100e']][i % 4] if tier == 'quick' else ['100e', '3j', '2e', '1j'], 'signed': t == 0}


def MAX_LEVEL(tier):
    return 0 if tier == 'quick' else 2


def run(case, seed, tier):
    return run_program(case, seed, succ=K.grow(9))
