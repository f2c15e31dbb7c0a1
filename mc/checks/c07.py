import itertools as it

import catalog as K
from prog import run_program

BOUNDS = dict(
    quick='all reductions of the catalogue over every nonempty axis subset, kept and dropped, of 23 sparsity structures; negative and permuted axis numbers; thresholds 0,1,2,3,100; 47 structures with four axes whose sparsity pattern varies along each subset of the axes x reductions over every axis subset',
    thorough='as quick at all thresholds, eager and compiled, signed inputs, plus one further operation on every new sparsity state',
)
CHUNK = 8
EXTRA = {
    'mix222': ([[2, 2, 2]], ['v[0]*v[0][::-1]+v[0].sum(2,keepdims=True)'], (2, 2, 2)),
    'half': ([[2, 3]], ['jnp.where(m(2,3), v[0], 0.9)*v[0][:1]'], (2, 3)),
}


def neg_axes(a, sh):
    nd = len(sh)
    out = []
    for r in range(1, nd + 1):
        for ax in it.permutations(range(nd), r):
            neg = tuple(x - nd for x in ax)
            if ax != tuple(sorted(ax)):
                out.append(f'jnp.sum({a}, axis={ax})')
            for k in ('sum', 'prod', 'max'):
                out.append(f'jnp.{k}({a}, axis={neg})')
    out += [f'jnp.sum({a}*{a}[::-1])' if nd else f'{a}+1.', f'jnp.sum({a})*{a}', f'jnp.mean({a})-{a}', f'jnp.linalg.norm({a})' if nd in (1, 2) else f'{a}*1.']
    if nd:
        out += [f'jnp.sum({a}, where=m(*{tuple(sh)}))', f'jnp.max({a}, axis=0, initial=0.9)', f'jnp.prod({a}, axis=0, where=m(*{tuple(sh)}))', f'jnp.sum({a}, axis=0, initial=0.5)',
                f'lax.reduce({a}, 0., lax.add, (0,))', f'lax.reduce_sum_p.bind({a}, axes=(0,))', f'jax.nn.logsumexp({a}, axis=0, b=c(*{tuple(sh)}))',
                f'jnp.nansum({a}, axis=0)', f'jnp.cumsum({a})', f'jnp.cumprod({a})', f'jnp.sort({a}, axis=None)', f'-jnp.sort(-{a}, axis=0)',
                f'jax.nn.standardize({a}, axis=0)', f'jnp.percentile({a}, 40., axis=0)', f'jnp.trapezoid({a}, axis=0)', f'lax.cummin({a}, axis=0)', f'lax.cumprod({a}, axis=0, reverse=True)', f'lax.cummax({a}, axis=0, reverse=True)',
                f'lax.reduce_window({a}, 0., lax.add, {(2,) + (1,) * (nd - 1)}, {(1,) * nd}, "VALID")' if sh[0] > 1 else f'{a}*3.']
    return out


def roots(tier):
    i = 0
    for p, (ins, pre, sh) in {**K.PRELUDES, **EXTRA}.items():
        a = f'v[{len(ins) + len(pre) - 1}]'
        for e in dict.fromkeys(K.reductions(a, sh) + neg_axes(a, sh)):
            i += 1
            if tier == 'quick':
                tm = [['0e', '100j'], ['100e', '2j'], ['3e', '1j'], ['100j', '2e']][i % 4]
            else:
                tm = ['0e', '0j', '1e', '2j', '3e', '4j', '100e', '100j']
            yield {'in': ins, 'prog': pre + [e], 'tm': tm}
            if tier == 'thorough':
                yield {'in': ins, 'prog': pre + [e], 'tm': tm[::3], 'signed': True}


    for S, g in K.gather_structures():
        for j, e in enumerate(dict.fromkeys(K.four_axes_reductions('v[1]'))):
            i += 1
            if tier == 'quick' and j % 2 and '*' in g:
                continue
            tm = ['100e', '100j', '2e', '6j', '0e'] if tier == 'thorough' else [[['100e'], ['100j'], ['4e']][i % 3], ['100e']]['*' in g]
            yield {'in': [[5]], 'prog': [g, e], 'tm': tm}


def MAX_LEVEL(tier):
    return 0 if tier == 'quick' else 1


def run(case, seed, tier):
    return run_program(case, seed, succ=K.grow(9))
