import catalog as K
from prog import run_program

BOUNDS = dict(
    quick='whole operation catalogue (all axes, permutations, index patterns) on 10 operand structures, 28 operand pairings, dense mode, positive and signed inputs, eager and compiled; one further operation of each rule on every new state',
    thorough='as quick on all 21 operand structures and two further operations on every new state',
)
CHUNK = 8
QP = ['id4', 'id23', 'id222', 'scalar', 'pair3', 'rowmix', 'constpart', 'one', 'two', 'twocat']


def roots(tier):
    i = 0
    for p in QP if tier == 'quick' else K.PRELUDES:
        ins, pre, sh = K.PRELUDES[p]
        a = f'v[{len(ins) + len(pre) - 1}]'
        for e in dict.fromkeys(K.all_unary(a, sh)):
            i += 1
            yield {'in': ins, 'prog': pre + [e], 'tm': [['0e', '0j'][i % 2]]}
        for e in K.ew(a) + K.reductions(a, sh):
            yield {'in': ins, 'prog': pre + [e], 'tm': ['0j'], 'signed': True}
        if p not in ('pair3', 'constpart2', 'dense', 'dup'):
            for e in K.ew(a, safe=False, pos=True):
                yield {'in': ins, 'prog': pre + [e], 'tm': ['0j']}
    for p, (ins, pre, a, b, sa, sb) in K.PAIRS.items():
        for e in K.binary(a, b):
            yield {'in': ins, 'prog': pre + [e], 'tm': ['0e', '0j']}
        if len(sa) == 1 and sa == sb:
            for e in (f'jnp.dot({a},{b})', f'jnp.outer({a},{b})', f'jnp.concatenate([{a},{b}])', f'jnp.stack([{b},{a}],1)',
                      f'{a}.at[:1].set({b}[:1])', f'{a}.at[::2].add({b}[::2])', f'jnp.where(m(*{sa}),{a},{b})', f'jnp.convolve({a},{b})'):
                yield {'in': ins, 'prog': pre + [e], 'tm': ['0e', '0j']}


def MAX_LEVEL(tier):
    return 1 if tier == 'quick' else 3


def run(case, seed, tier):
    return run_program(case, seed, succ=K.grow(24 if tier == 'thorough' else 8))
