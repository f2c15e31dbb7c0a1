"""Operations without a dedicated rule, and library programs around the rules."""
from prog import run_program

BOUNDS = dict(
    quick='all operations of the library list x 7 operand structures x 2 of 8 threshold/mode combinations (rotating)',
    thorough='as quick, all threshold/mode combinations, plus every ordered pair of one operation and a reduction of its result, and signed inputs',
)
CHUNK = 4
STRUCT = {
    'id': ([[3]], []),
    'rev': ([[3]], ['v[0]*v[0][::-1]']),
    'next': ([[4]], ['v[0][:3]*v[0][1:]']),
    'mix': ([[3]], ['jnp.abs(jnp.sin(v[0]@w(3,3)))']),
    'part': ([[2]], ['jnp.concatenate([v[0],c(1)])']),
    'rows': ([[3, 2]], ['v[0].prod(1)']),
    'other': ([[3], [2]], ['v[1][1]*0.5+v[0]*c(3)']),
}
PLANS = [['0e', '100j'], ['100e', '2j'], ['1j', '3e'], ['2e', '0j']]


def roots(tier):
    import library

    i = 0
    for s, (ins, pre) in STRUCT.items():
        for name in library.E:
            i += 1
            e = f"LIB('{name}')(v[{len(ins) + len(pre) - 1}])" if s != 'other' else f"LIB('{name}')(v[2])"
            tm = PLANS[i % 4] if tier == 'quick' else sum(PLANS, [])
            yield {'in': ins, 'prog': pre + [e], 'tm': tm}
            if tier == 'thorough':
                yield {'in': ins, 'prog': pre + [e], 'tm': tm, 'signed': True}
                for r in ('jnp.sum(jax.tree_util.tree_leaves(E)[0]**2)', 'jnp.sin(jax.tree_util.tree_leaves(E)[-1])*2'):
                    yield {'in': ins, 'prog': pre + [r.replace('E', e)], 'tm': tm[::3]}


def run(case, seed, tier):
    return run_program(case, seed)
