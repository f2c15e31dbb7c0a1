import catalog as K
from prog import run_program

BOUNDS = dict(
    quick='all rearrangements, index patterns and scatters of the catalogue on 21 structures; joins, selections and scatters of 28 operand pairings in both orders; thresholds 0, 1, 2, 3, 100; eager and compiled; 31 structures with four axes whose sparsity pattern varies along each subset of the axes x permutations, reshapes, index patterns, scatters and joins of every axis',
    thorough='as quick at all thresholds and modes, plus one further operation on every new sparsity state',
)
CHUNK = 8


def joins(a, b, sa, sb):
    out = []
    sha = ','.join(map(str, sa))
    if sa == sb:
        nd = len(sa)
        for i in range(nd + 1):
            out.append(f'jnp.stack([{a},{b}],axis={i})')
        for i in range(nd):
            out += [f'jnp.concatenate([{a},{b}],axis={i})', f'jnp.concatenate([{b},c({sha}),{a}],axis={i})', f'jnp.concatenate([{a},{b},{a}],axis={i})']
        out += [f'jnp.where(m({sha}),{a},{b})', f'jnp.where({a}>0.9,{a},{b})', f'jnp.where({b}>0.8,{b},{a}**2)',
                f'lax.select(m({sha},k=1),{b},{a})', f'lax.select_n(m({sha}),{a},{b})',
                f'lax.select_n((np.arange({max(1, K.np.prod(sa, dtype=int))}).reshape({sa})%3).astype(np.int32),{a},{b},c({sha}))',
                f'lax.clamp(0.2*{a},{b},5.+{a}**2)', f'lax.clamp(0.6,{a},{b}+1.)']
        if nd == 1:
            s = sa[0]
            for op in ('set', 'add', 'multiply', 'min', 'max'):
                out += [f'{a}.at[0].{op}({b}[{s - 1}])', f'{a}.at[:{s - 1}].{op}({b}[1:])' if s > 1 else f'{a}+{b}',
                        f'{a}.at[np.array([0,{s - 1}])].{op}({b}[:2])' if s > 1 else f'{a}-{b}']
            out += [f'{a}.at[np.array([0,0,{s - 1}])].add({b}[np.array([0,{s - 1},0])])', f'lax.dynamic_update_slice({a},{b}[:1],(1,))',
                    f'jnp.zeros(({s + 2},)).at[1:{s + 1}].set({a}).at[0].add({b}[0])',
                    f'jax.ops.segment_sum(jnp.concatenate([{a},{b}]),np.arange({2 * s})%2,num_segments=3)',
                    f'jnp.insert({a},1,{b}[0])', f'jnp.append({a},{b})', f'jnp.interleave({a},{b})' if False else f'jnp.stack([{a},{b}],1).ravel()',
                    f'jnp.where(m({sha})[:,None],{a}[:,None],{b}[None])', f'jnp.pad({a},1,constant_values={b}[0])', f'lax.pad({a},{b}[0],((1,0,1),))',
                    f'jnp.hstack([{a},{b}])', f'jnp.vstack([{a},{b}])', f'jnp.meshgrid({a},{b})[0]', f'jnp.meshgrid({a},{b},indexing="ij")[1]',
                    f'jnp.select([m({sha}),m({sha},k=1)],[{a},{b}],0.4)', f'jnp.choose(np.arange({s})%2,[{a},{b}],mode="wrap")',
                    f'jnp.roll(jnp.concatenate([{a},{b}]),2)', f'jnp.block([[{a}[:,None],{b}[:,None]]])', f'jnp.take(jnp.stack([{a},{b}]),np.array([1,0,1]),axis=0)',
                    f'jnp.triu(jnp.outer({a},c({s}))+{b})', f'jnp.diag({a}).at[0,{s - 1}].set({b}[0])']
    elif len(sa) == 1 and sb == ():
        s = sa[0]
        out += [f'jnp.concatenate([{a},{b}[None]])', f'{a}.at[1].set({b})', f'{a}.at[np.array([0,{s - 1}])].add({b})', f'jnp.where(m({sha}),{a},{b})',
                f'jnp.pad({a},(1,2),constant_values={b})', f'lax.pad({a},{b},((0,1,1),))', f'{a}.at[jnp.int32({b}>100.)].set({b})', f'jnp.full((2,),{b})+{a}[0]',
                f'jnp.insert({a},1,{b})', f'lax.dynamic_update_slice({a},{b}[None],(2,))', f'{a}[({b}>0.9).astype(int)]', f'{a}.at[({b}>0.9).astype(int)].multiply({b})']
    elif len(sa) == 2 and len(sb) == 1 and sa[1] == sb[0]:
        out += [f'jnp.concatenate([{a},{b}[None]],0)', f'{a}.at[0].set({b})', f'{a}.at[-1].add({b})', f'jnp.where(m({sha}),{a},{b})',
                f'jnp.stack([{a}[0],{b}])', f'{a}.at[:,0].set({b}[:1])', f'jnp.vstack([{a},{b}])', f'lax.dynamic_update_slice({a},{b}[None],(1,0))',
                f'{a}.at[np.array([0,0])].add({b})', f'{a}.at[np.array([0,{sa[0] - 1}]),np.array([0,1])].set({b}[:2])', f'jnp.where(({b}>0.9)[None],{a},{b})']
    elif len(sa) == 2 and len(sb) == 2 and sa[0] == sb[0]:
        out += [f'jnp.concatenate([{a},{b}],1)', f'jnp.concatenate([{b},{a}],1)', f'{a}.at[:,:1].set({b}[:,:1])', f'jnp.where(m({sha}),{a},{b})']
    return out


def roots(tier):
    i = 0
    for p, (ins, pre, sh) in K.PRELUDES.items():
        a = f'v[{len(ins) + len(pre) - 1}]'
        for e in dict.fromkeys(K.rearrange(a, sh) + K.multi_index(a, sh) + K.data_dependent(a, sh) + K.scatters(a, sh)):
            i += 1
            if tier == 'quick':
                tm = [['0e', '100j'], ['100e', '1j'], ['2j', '100e']][i % 3]
            else:
                tm = ['0e', '0j', '1e', '2j', '3e', '4j', '100e', '100j']
            yield {'in': ins, 'prog': pre + [e], 'tm': tm}
    for p, (ins, pre, a, b, sa, sb) in K.PAIRS.items():
        for e in dict.fromkeys(joins(a, b, sa, sb) + joins(b, a, sb, sa)):
            yield {'in': ins, 'prog': pre + [e], 'tm': ['0e', '1j', '2e', '100e', '100j'] if tier == 'quick' else ['0e', '0j', '1e', '1j', '2e', '2j', '3e', '4j', '100e', '100j']}


    for S, g in K.gather_structures():
        if tier == 'quick' and '*' in g and g.endswith('2)]'):
            continue
        for j, e in enumerate(dict.fromkeys(K.four_axes_rearrangements('v[1]'))):
            i += 1
            if tier == 'quick' and (j + len(S)) % 2 and '*' in g:
                continue
            yield {'in': [[5]], 'prog': [g, e], 'tm': ['100e', '100j', '2e', '6j', '0e'] if tier == 'thorough' else [['100e'], ['100j'], ['100e'], ['2e']][i % 4]}


def MAX_LEVEL(tier):
    return 0 if tier == 'quick' else 1


def run(case, seed, tier):
    return run_program(case, seed, succ=K.grow(9))
