import catalog as K
from prog import run_program

BOUNDS = dict(
    quick='all elementwise functions x structures, all binary operations x 28 operand pairings and 3 to 6 constant roles x thresholds 0,1,2,100; elementwise operations of three or four arguments on all triples of 10 operand structures (a third of the rarer ones)',
    thorough='as quick, with every threshold 0..5, fractions, both execution modes and one further operation on every new sparsity state',
)
CHUNK = 8
EWP = ['id4', 'scalar', 'pair3', 'rowsum', 'dense', 'constpart2', 'repeat', 'one', 'ragged', 'two', 'col', 'dup']


def roots(tier):
    tms = ['0e', '1j', '2e', '100j'] if tier == 'quick' else ['0e', '0j', '1j', '2e', '3j', '4e', '0.5j', '100e', '100j']
    for p in EWP if tier == 'quick' else K.PRELUDES:
        ins, pre, sh = K.PRELUDES[p]
        a = f'v[{len(ins) + len(pre) - 1}]'
        pos = p not in ('pair3', 'constpart2', 'dense', 'dup')
        for e in K.ew(a, pos=pos):
            for s in (False, True):
                if s and e in K.ew(a, safe=False, pos=True):
                    continue
                if s and p in ('dup', 'two', 'col', 'one'):
                    continue
                yield {'in': ins, 'prog': pre + [e], 'tm': tms if not s else [tms[0], tms[-1]], 'signed': s}
        for e in K.bin_const(a, sh):
            yield {'in': ins, 'prog': pre + [e], 'tm': tms[:1] + tms[2:]}
    for p, (ins, pre, a, b, sa, sb) in K.PAIRS.items():
        for e in K.binary(a, b):
            yield {'in': ins, 'prog': pre + [e], 'tm': tms}
            if '/{b}' not in e and '**' not in e:
                yield {'in': ins, 'prog': pre + [e], 'tm': [tms[0], tms[-1]], 'signed': True}


    ew3 = [i for i, t in enumerate(K.TERNARY) if any(q in t for q in ('CJ', 'clamp', 'select', 'where', 'logadd'))]
    i = 0
    for names, t, e in K.ternary():
        if t not in ew3:
            continue
        i += 1
        if tier == 'quick' and (t not in (0, 4, 5) or sum(n in ('part', 'col', 'scal', 'dense') for n in names) > 1) and i % 3:
            continue
        yield {'in': [[3], [3]], 'prog': [e], 'tm': [['0e'], ['0j'], ['1e', '0e'], ['100j']][i % 4] if tier == 'quick' else tms}


def MAX_LEVEL(tier):
    return 0 if tier == 'quick' else 1


def run(case, seed, tier):
    return run_program(case, seed, succ=K.grow(12))
