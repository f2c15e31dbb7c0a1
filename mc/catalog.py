"""Catalogue of array operations, as expression templates over an operand `a` of a given
shape.  Everything is generated from the shape alone, so that a check can enumerate *all*
instances (all axis subsets, all permutations, ...) within its bounds."""

import itertools as it

import numpy as np

# ---------------------------------------------------------------- elementwise, one operand
# domain-safe for any real operand (the raw primitive is preceded by a guard where needed)
EW_SAFE = [
    'jnp.sin({a})', 'jnp.cos({a})', 'jnp.tanh({a})', 'jnp.exp(0.4*{a})', 'jnp.expm1(0.4*{a})',
    'jax.nn.sigmoid({a})', 'jax.nn.softplus({a})', 'jax.nn.silu({a})', 'jax.nn.gelu({a})',
    'jax.nn.relu({a})', 'jax.nn.elu({a})', 'jax.nn.leaky_relu({a})', 'jnp.abs({a})', 'jnp.square({a})',
    '{a}**3', '{a}**2', '-{a}', 'jnp.sqrt(1.+{a}**2)', 'jnp.log(0.5+{a}**2)', 'jnp.log1p({a}**2)',
    'lax.rsqrt(0.3+{a}**2)', 'jnp.arctan({a})', 'jnp.tan(0.2*{a})', 'jnp.arcsin(0.3*jnp.tanh({a}))',
    'jnp.arccos(0.3*jnp.tanh({a}))', 'lax.logistic({a})', 'jnp.sinh(0.3*{a})', 'jnp.cosh(0.3*{a})',
    'jnp.arcsinh({a})', 'jnp.cbrt(1.+{a}**2)', 'lax.erf({a})', 'jnp.exp2(0.3*{a})',
    'lax.integer_pow({a}, 4)', '1./(1.+{a}**2)', 'jnp.reciprocal(2.+{a}**2)', 'lax.integer_pow(1.5+{a}**2, -2)',
    'jnp.sign({a})*{a}', 'lax.stop_gradient({a})*{a}', 'jnp.where({a}>0.9, {a}**2, jnp.sin({a}))',
    'jnp.floor({a})+{a}', 'jnp.clip({a}, 0.6, 1.2)', 'jnp.sinc({a})', 'jnp.power(0.5+{a}**2, 1.7)',
    'jax.nn.log_sigmoid({a})', 'jnp.logaddexp({a}, 0.3)', 'jnp.hypot({a}, 0.7)',
    '{a}.astype(jnp.int32)*{a}', '({a}>0.8)*{a}',
]
# raw primitives for positive operands
EW_POS = [
    'jnp.log({a})', 'jnp.sqrt({a})', 'lax.rsqrt({a})', 'jnp.log1p({a})', '{a}**1.3', '1./{a}',
    'lax.integer_pow({a}, -1)', 'lax.integer_pow({a}, -3)', '{a}**0.5', 'jnp.log2({a})',
    'lax.cbrt({a})', '2.**{a}', '{a}**{a}',
]


def ew(a, safe=True, pos=False):
    t = (EW_SAFE if safe else []) + (EW_POS if pos else [])
    return [s.format(a=a) for s in t]


# ------------------------------------------------------------------ binary with a constant
def bin_const(a, shape):
    sh = tuple(shape)
    cs = ["c()", f"c(*{sh})", "1.7", "2"]
    if len(sh) >= 1:
        cs += [f"c({sh[-1]})", f"cn(*{sh})"]
    if len(sh) >= 2:
        cs += [f"c({sh[0]},1)", f"c(3,*{sh})"]
    out = []
    for k in cs:
        out += [
            f'{a}+{k}', f'{k}-{a}', f'{a}*{k}', f'{a}/{k}', f'{k}/(1.5+{a}**2)', f'jnp.maximum({a},{k})',
            f'jnp.minimum({k},{a})', f'jnp.arctan2({a},{k})', f'jnp.arctan2({k},{a})', f'{k}**{a}',
            f'(1.2+{a}**2)**{k}', f'jnp.logaddexp({a},1.*{k})', f'jnp.where({a}>{k},{a},{k})',
        ]
    return out


# ------------------------------------------------------------------ binary with two operands
BIN = [
    '{a}+{b}', '{a}-{b}', '{a}*{b}', '{a}/(1.3+{b}**2)', '{a}/{b}', 'jnp.maximum({a},{b})',
    'jnp.minimum({a},{b})', 'jnp.arctan2({a},{b})', '(0.7+{a}**2)**{b}', 'jnp.logaddexp({a},{b})',
    'jnp.where({a}>{b},{a},{b}**2)', 'jnp.hypot({a},{b})', 'lax.select(jnp.broadcast_to({a}>0.9, jnp.broadcast_shapes({a}.shape,{b}.shape)), jnp.broadcast_to({a}, jnp.broadcast_shapes({a}.shape,{b}.shape)), jnp.broadcast_to({b}, jnp.broadcast_shapes({a}.shape,{b}.shape)))',
]


def binary(a, b):
    return [s.format(a=a, b=b) for s in BIN]


# ------------------------------------------------------------------------------ reductions
def axis_subsets(nd):
    for r in range(1, nd + 1):
        yield from it.combinations(range(nd), r)


RED_MULTI = ['sum', 'prod', 'max', 'min', 'mean', 'var']


def reductions(a, shape, keep=(False, True), kinds=None):
    nd = len(shape)
    out = []
    for ax in axis_subsets(nd):
        for k in kinds or RED_MULTI:
            for kd in keep:
                out.append(f'jnp.{k}({a}, axis={ax}, keepdims={kd})')
        if kinds is None:
            out.append(f'jax.nn.logsumexp({a}, axis={ax})')
            out.append(f'jax.nn.softmax({a}, axis={ax})')
            out.append(f'jnp.sqrt(jnp.sum({a}**2, axis={ax})+0.1)')
    if kinds is None:
        for ax in range(nd):
            out += [
                f'jnp.cumsum({a}, axis={ax})', f'jnp.cumprod({a}, axis={ax})',
                f'lax.cummax({a}, axis={ax})', f'lax.cumlogsumexp({a}, axis={ax})',
                f'lax.cumsum({a}, axis={ax}, reverse=True)', f'jnp.sort({a}, axis={ax})',
                f'jnp.linalg.norm({a}, axis={ax})', f'jnp.std({a}, axis={ax})', f'jnp.ptp({a}, axis={ax})',
                f'jax.nn.log_softmax({a}, axis={ax})', f'jnp.average({a}, axis={ax}, weights=c({shape[ax]}))',
                f'jnp.median({a}, axis={ax})', f'jnp.diff({a}, axis={ax})' if shape[ax] > 1 else f'{a}*1.',
            ]
        out.append(f'{a}.sum()')
    return out


# --------------------------------------------------------------------------- rearrangements
def _factorizations(n, maxd=3):
    if maxd == 1:
        return [(n,)]
    out = [(n,)]
    for d in range(1, n + 1):
        if n % d == 0:
            for r in _factorizations(n // d, maxd - 1):
                out.append((d,) + r)
    return sorted(set(out))


def rearrange(a, shape):
    sh = tuple(shape)
    nd = len(sh)
    n = int(np.prod(sh, dtype=int))
    out = []
    for s in _factorizations(n):
        if s != sh:
            out.append(f'{a}.reshape({s})')
    if n == 1:
        out.append(f'{a}.reshape(())')
    for p in it.permutations(range(nd)):
        if p != tuple(range(nd)):
            out.append(f'jnp.transpose({a}, {p})')
    for i in range(nd + 1):
        out.append(f'jnp.expand_dims({a}, {i})')
    for i in range(nd):
        if sh[i] == 1:
            out.append(f'jnp.squeeze({a}, {i})')
    for bs in [(2,) + sh, sh[:-1] + (1,) + sh[-1:] if nd else (2, 2)]:
        out.append(f'jnp.broadcast_to({a}, {bs})' if bs[0] == 2 and bs[1:] == sh else f'{a}.reshape({bs})' if nd else f'jnp.broadcast_to({a}, {bs})')
    if nd:
        out.append(f'lax.broadcast_in_dim({a}, {sh + (2,)}, {tuple(range(nd))})')
        for ax in axis_subsets(nd):
            out.append(f'jnp.flip({a}, {ax})')
        for i in range(nd):
            s = sh[i]
            pre = ':,' * i
            out += [
                f'{a}[{pre}0]', f'{a}[{pre}-1]', f'{a}[{pre}{s - 1}:]', f'{a}[{pre}::-1]', f'{a}[{pre}1:]' if s > 1 else f'{a}[{pre}:1]',
                f'{a}[{pre}::2]', f'{a}[{pre}None]',
                f'{a}[{pre}np.array([{s - 1},0,{s - 1}])]', f'{a}[{pre}jnp.array([[0],[-1]])]',
                f'jnp.take({a}, np.array([0,{s - 1},{s - 1}]), axis={i})',
                f'jnp.roll({a}, 1, axis={i})', f'jnp.repeat({a}, 2, axis={i})',
                f'jnp.repeat({a}, np.array({[1 + (j % 2) for j in range(s)]}), axis={i}, total_repeat_length={sum(1 + (j % 2) for j in range(s))})',
                f'jnp.concatenate([{a}, {a}**2], axis={i})', f'jnp.stack([{a}, 2.*{a}], axis={i})',
                f'jnp.concatenate([{a}, c(*{sh[:i] + (2,) + sh[i + 1:]})], axis={i})',
                f'jnp.concatenate([c(*{sh[:i] + (1,) + sh[i + 1:]}), {a}, {a}], axis={i})',
                f'jnp.stack([c(*{sh}), {a}], axis={i})',
                f'jnp.split({a}, [1], axis={i})[0]', f'jnp.array_split({a}, 2, axis={i})[-1]' if s > 1 else f'{a}+0.',
                f'lax.dynamic_slice_in_dim({a}, 0, 1, axis={i})', f'lax.dynamic_slice_in_dim({a}, {s}, 1, axis={i})',
                f'lax.dynamic_index_in_dim({a}, {s - 1}, axis={i})',
                f'lax.slice_in_dim({a}, 0, {s}, 2, axis={i})',
                f'jnp.pad({a}, {[(0, 0)] * i + [(1, 0)] + [(0, 0)] * (nd - i - 1)})',
                f'jnp.pad({a}, {[(0, 0)] * i + [(1, 1)] + [(0, 0)] * (nd - i - 1)}, mode="edge")',
                f'jnp.pad({a}, {[(0, 0)] * i + [(0, 1)] + [(0, 0)] * (nd - i - 1)}, mode="wrap")',
                f'jnp.moveaxis({a}, {i}, 0)', f'jnp.delete({a}, 0, axis={i})' if s > 1 else f'{a}*1.',
            ]
        out += [f'jnp.tile({a}, 2)', f'{a}.ravel()', f'{a}[m(*{sh})]', f'jnp.where(m(*{sh}), {a}, 0.)',
                f'jnp.where(m(*{sh}), {a}, c(*{sh}))', f'jnp.where(m(*{sh},k=1), {a}**2, {a})',
                f'jnp.where(m(*{sh}), 1.5, {a})', f'lax.select(m(*{sh}), {a}, c(*{sh}))',
                f'jnp.atleast_2d({a})', f'lax.rev({a}, (0,))',
                f'{a}[np.nonzero(m(*{sh}))]']
    if nd >= 2:
        out += [f'jnp.tril({a})', f'jnp.triu({a},1)', f'jnp.diagonal({a})', f'jnp.trace({a})', f'jnp.swapaxes({a},0,1)',
                f'{a}[np.array([0,1]), np.array([1,0])]' if min(sh[:2]) > 1 else f'{a}+0.',
                f'jnp.take_along_axis({a}, np.argsort(np.arange({n}).reshape({sh})[::-1], 0) , axis=0)',
                f'jnp.rot90({a})']
    if nd == 1:
        out += [f'jnp.diag({a})', f'jnp.outer({a}, {a})', f'{a}[:,None]-{a}[None,:]', f'{a}[:,None]*{a}[None]',
                f'jnp.convolve({a}, c(2))']
    if nd == 0:
        out += [f'{a}[None]', f'{a}[None,None]', f'jnp.stack([{a}, {a}])', f'jnp.full((2,2), {a})' ]
    return out


def multi_index(a, shape):
    """positions along several axes at once and positions outside the array"""
    sh = tuple(shape)
    nd = len(sh)
    out = []
    if not nd:
        return out
    for i in range(nd):
        pre = ':,' * i
        s = sh[i]
        out += [
            f'{a}.at[{pre}np.array([0,{s + 2},{-s - 3},{s - 1}])].get(mode="fill",fill_value={2. if i % 2 else 1.})',
            f'{a}.at[{pre}np.array([{s},{s - 1}])].get(mode="fill",fill_value={-3. if i % 2 else 0.})',
            f'{a}.at[{pre}np.array([0,{s + 2},{-s - 3}])].get(mode="clip")',
            f'jnp.take({a},np.array([{s},0,{-s}]),axis={i},mode="fill",fill_value=0.5)',
            f'jnp.nan_to_num(jnp.take({a},np.array([{s},0]),axis={i},mode="fill"),nan=0.3)',
            f'jnp.take({a},np.array([{s},1]),axis={i},mode="wrap")',
            f'jnp.zeros({sh}).at[{pre}np.array([0,{s + 1}])].add({a}[{pre}np.array([0,-1])],mode="clip")',
            f'{a}.at[{pre}np.array([{s + 1},0])].set({a}[{pre}np.array([-1,0])]**2,mode="drop")',
            f'{a}.at[{pre}{s + 1}].add(1.5,mode="clip")',
            f'jnp.ones({sh}).at[{pre}np.array([{s - 1},{s + 1}])].set({a}[{pre}np.array([0,-1])],mode="drop")',
        ]
    starts = [tuple(max(0, s - 1) for s in sh), tuple(min(1, s - 1) for s in sh), tuple(s + 1 if i % 2 else 0 for i, s in enumerate(sh)), tuple(0 if i % 2 else s - 1 for i, s in enumerate(sh)), tuple(0 if i < nd - 1 else s - 1 for i, s in enumerate(sh))]
    for st in dict.fromkeys(starts):
        size = tuple(max(1, s - 1) for s in sh)
        tup = '(' + ''.join(f'jnp.int32({x}),' for x in st) + ')'
        out += [f'lax.dynamic_slice({a},{tup},{size})', f'lax.dynamic_update_slice({a},c(*{size}),{tup})', f'lax.dynamic_update_slice(c(*{sh}),{a}[{",".join(":%d" % x for x in size)}],{tup})']
    if nd > 1:
        out += [f'lax.slice({a},{tuple(min(1, s - 1) for s in sh)},{sh},{(2,) * nd})', f'{a}[{",".join(["::-1", "1:" if sh[1] > 1 else ":"] + [":1"] * (nd - 2))}]',
                f'lax.rev({a},{tuple(range(nd))})', f'lax.reshape({a},({int(np.prod(sh))},),{tuple(range(nd))[::-1]})',
                f'{a}[jnp.ix_({",".join("np.array([%d,0])" % (s - 1) for s in sh)})]', f'{a}[-1,{"..., " if nd > 2 else ""}np.array([{sh[-1] - 1},0,0])]',
                f'lax.pad({a},0.7,{tuple((1, 0, i % 2) for i in range(nd))})', f'lax.pad({a},1.,{tuple((-1 if s > 1 else 0, 1, 0) for s in sh)})',
                f'{a}.at[{",".join("np.array([%d,0])" % (s - 1) for s in sh)}].set(np.array([0.2,0.4]))', f'{a}.at[{",".join("np.array([%d,9,0])" % (s - 1) for s in sh)}].get(mode="fill",fill_value=1.)',
                f'{a}.at[{",".join("%d:" % min(1, s - 1) for s in sh)}].multiply(1.5)']
    if nd > 2:
        out += [f'{a}[np.array([0,{sh[0] - 1}]),:,np.array([{sh[2] - 1},0])]', f'{a}[:,np.array([{sh[1] - 1},0]),np.array([0,{sh[2] - 1}])]', f'{a}[{sh[0] - 1},:,np.array([{sh[2] - 1},0])]',
                f'{a}.at[np.array([0,{sh[0] - 1}]),:,np.array([{sh[2] - 1},0])].add(0.3)']
    return out


def data_dependent(a, shape):
    """rearrangements whose positions depend on the input's values (or on tracers)"""
    sh = tuple(shape)
    nd = len(sh)
    out = []
    if nd:
        z = ('0,' * nd)[:-1]
        idx = f'({a}[{z}]>0.9).astype(int)'
        for i in range(nd):
            pre = ':,' * i
            out += [
                f'{a}[{pre}{idx}]' if sh[i] > 1 else f'{a}*2.',
                f'lax.dynamic_slice_in_dim({a}, {idx}, 1, axis={i})',
                f'lax.dynamic_index_in_dim({a}, {idx}, axis={i})',
                f'lax.dynamic_update_slice_in_dim({a}, {a}[{":," * i}:1]**2, {idx}, axis={i})',
                f'jnp.roll({a}, {idx}, axis={i})',
                f'jnp.take({a}, {idx}[None], axis={i})',
            ]
        out += [f'jnp.where({a}>0.9, {a}, 0.)', f'jnp.where({a}>0.9, {a}**2, c(*{sh}))',
                f'{a}.at[{idx}].set(0.5)', f'{a}.at[{idx}].add({a}[0]**2)']
    return out


def scatters(a, shape):
    sh = tuple(shape)
    nd = len(sh)
    out = []
    if nd == 0:
        return out
    for i in range(nd):
        pre = ':,' * i
        s = sh[i]
        row = sh[:i] + sh[i + 1:]
        row_e = f'c(*{row})'
        sl = f'{a}[{pre}0]'
        for op in ('set', 'add', 'multiply', 'min', 'max', 'power', 'divide'):
            if op in ('power', 'divide', 'multiply'):
                out.append(f'{a}.at[{pre}{s - 1}].{op}(1.5)')
                continue
            out += [
                f'{a}.at[{pre}0].{op}(0.9)', f'{a}.at[{pre}{s - 1}].{op}({row_e})',
                f'{a}.at[{pre}{s - 1}].{op}(jnp.sin({sl}))',
                f'c(*{sh}).at[{pre}0].{op}({sl})',
                f'c(*{sh}).at[{pre}{s - 1}].{op}({sl}**2)',
                f'jnp.zeros({sh}).at[{pre}np.array([{s - 1}])].{op}({a}[{pre}:1])',
            ]
        out += [
            f'{a}.at[{pre}1:].set(0.)' if s > 1 else f'{a}*1.',
            f'{a}.at[{pre}::2].add({a}[{pre}::2]**2)',
            f'{a}.at[{pre}np.array([0,{s - 1}])].add(1.25)',
            f'{a}.at[{pre}np.array([0,0])].add({a}[{pre}np.array([0,{s - 1}])])',
            f'{a}.at[{pre}{s + 3}].set(0.4, mode="drop")',
            f'lax.dynamic_update_slice_in_dim({a}, {a}[{pre}:1]**2, {s - 1}, axis={i})',
            f'lax.dynamic_update_slice_in_dim({a}, c(*{sh[:i] + (1,) + sh[i + 1:]}), 0, axis={i})',
            f'lax.dynamic_update_slice_in_dim(c(*{sh}), {a}[{pre}:1], 0, axis={i})',
        ]
    s = sh[0]
    seg = [(j * 2 + 1) % 3 for j in range(s)]
    out += [
        f'jax.ops.segment_sum({a}, np.array({seg}), num_segments=3)',
        f'jax.ops.segment_max({a}, np.array({[j % 2 for j in range(s)]}), num_segments=2)' if s > 1 else f'{a}*1.',
        f'jax.ops.segment_prod({a}, np.array({list(range(s))}), num_segments={s})' if False else f'{a}+1.',
        f'jnp.zeros((5,)).at[np.arange({s})].add({a}.reshape({s},-1)[:,0])',
        f'jnp.zeros((2,)).at[np.arange({s})%2].add({a}.reshape({s},-1)[:,0])',
        f'jnp.ones((2,)).at[np.arange({s})%2].max({a}.reshape({s},-1)[:,0])',
        f'jnp.ones(({s + 1},)).at[np.arange({s})].set({a}.reshape({s},-1)[:,0])',
    ]
    if nd >= 2:
        out += [f'{a}.at[np.array([0,1]),np.array([1,0])].set(0.7)' if min(sh[:2]) > 1 else f'{a}+1.',
                f'{a}.at[np.array([0,1]),np.array([1,0])].add({a}[0,:2].reshape((-1,)+(1,)*{nd - 2})[:2])' if min(sh[:2]) > 1 else f'{a}+1.',
                f'jnp.fill_diagonal({a}, 0.25, inplace=False)']
    return out


# ------------------------------------------------------------------------------ contractions
def const_contractions(a, shape):
    sh = tuple(shape)
    nd = len(sh)
    out = []
    for i in range(nd):
        s = sh[i]
        out += [f'jnp.tensordot({a}, w({s},2), (({i},),(0,)))', f'jnp.tensordot(w(2,{s}), {a}, ((1,),({i},)))',
                f'jnp.tensordot({a}, w({s}), (({i},),(0,)))', f'jnp.tensordot(w(2,{s},2), {a}, ((1,),({i},)))']
    if nd >= 1:
        out += [f'{a}@w({sh[-1]},3)', f'w(2,{sh[-2] if nd > 1 else sh[0]})@{a}', f'jnp.dot({a}, w({sh[-1]}))', f'jnp.vdot({a}, w(*{sh}))',
                f'jnp.tensordot({a}, w(*{sh}), {nd})', f'jnp.kron({a}, w(2))' if nd == 1 else f'{a}*1.']
    if nd >= 2:
        out += [f'jnp.tensordot({a}, w(*{sh[:2]},2), ((0,1),(0,1)))', f'jnp.einsum("ij...,ij->i...", {a}, w(*{sh[:2]}))',
                f'jnp.einsum("ij...,ik->ijk...", {a}, w({sh[0]},2))', f'jnp.einsum("ij...,kj->k...", {a}, w(2,{sh[1]}))',
                f'jax.nn.softmax({a}@w({sh[-1]},2))', f'jnp.einsum("bj...,bjk->bk...", {a}, w({sh[0]},{sh[1]},2))',
                f'jnp.einsum("bjk,bj...->b...k", w({sh[0]},{sh[1]},2), {a})']
    return out


def self_contractions(a, shape):
    """contractions of the operand with a function of itself"""
    sh = tuple(shape)
    nd = len(sh)
    out = []
    b = f'jnp.sin({a})'
    for ax in axis_subsets(nd):
        out.append(f'jnp.tensordot({a}, {b}, ({ax},{ax}))')
    if nd == 1:
        out += [f'jnp.dot({a},{a})', f'jnp.outer({a},{b})', f'jnp.vdot({a},{b})', f'jnp.einsum("i,i->i",{a},{b})',
                f'jnp.einsum("i,j->ij",{a},{b})', f'jnp.cross({a},{b})' if sh == (3,) else f'{a}*{b}', f'jnp.inner({a},{b})']
    if nd == 2:
        out += [f'{a}@{b}.T', f'{a}.T@{b}', f'jnp.einsum("ij,ij->i",{a},{b})', f'jnp.einsum("ij,ij->j",{a},{b})',
                f'jnp.einsum("ij,kj->ik",{a},{b})', f'jnp.einsum("ij,ik->jk",{a},{b})', f'jnp.einsum("ij,ik->ijk",{a},{b})',
                f'jnp.einsum("ij,kj->jik",{a},{b})', f'jnp.einsum("ij,kl->ijkl",{a},{b})', f'jnp.einsum("ij,jk->ik",{a},{b}.T)',
                f'jax.nn.softmax({a}@{b}.T)@{a}', f'jnp.einsum("ij,kj,i->k",{a},{b},{a}[:,0])', f'{a}@{b}[0]', f'{b}[:,0]@{a}',
                f'jnp.matmul({a}[None],{b}.T[None])']
        if sh[0] == sh[1]:
            out += [f'{a}@{b}', f'jnp.einsum("ii,ij->j",{a},{b})']
    if nd == 3:
        out += [f'jnp.einsum("bij,bij->bi",{a},{b})', f'jnp.einsum("bij,bkj->bik",{a},{b})', f'jnp.einsum("bij,bik->bjk",{a},{b})',
                f'jnp.einsum("bij,cij->bc",{a},{b})', f'jnp.einsum("bij,bij->b",{a},{b})', f'jnp.einsum("bij,bij->j",{a},{b})',
                f'jnp.einsum("bij,cij->bcj",{a},{b})', f'{a}@jnp.swapaxes({b},1,2)']
    return out


# ---------------------------------------------------------------------- everything for one operand
def all_unary(a, shape):
    return (
        ew(a) + bin_const(a, shape) + reductions(a, shape) + rearrange(a, shape) + data_dependent(a, shape)
        + scatters(a, shape) + const_contractions(a, shape) + self_contractions(a, shape)
    )


# ------------------------------------------------------------------------------ preludes
# Programs over a single input v[0] of shape (4,) or (2,3)... that reach structurally different
# sparsity patterns; each entry is (input shapes, expressions, shape of the last value).
PRELUDES = {
    'id4': ([[4]], [], (4,)),
    'id23': ([[2, 3]], [], (2, 3)),
    'id222': ([[2, 2, 2]], [], (2, 2, 2)),
    'scalar': ([[]], [], ()),
    'pair3': ([[3]], ['v[0][:,None]-v[0][None,:]'], (3, 3)),
    'pair32': ([[3, 2]], ['v[0][:,None]-0.5*v[0][None,:]'], (3, 3, 2)),
    'rowmix': ([[2, 3]], ['v[0]@w(3,3)'], (2, 3)),
    'rowsum': ([[2, 3]], ['v[0]*v[0].sum(1,keepdims=True)'], (2, 3)),
    'dense': ([[4]], ['v[0]@w(4,4)', 'jnp.sin(v[1])+v[0]'], (4,)),
    'constpart': ([[3]], ['jnp.concatenate([v[0], c(2)])'], (5,)),
    'constpart2': ([[2, 2]], ['jnp.stack([c(2,2), v[0]**2, v[0]])'], (3, 2, 2)),
    'perm': ([[2, 3]], ['v[0].T[::-1]'], (3, 2)),
    'repeat': ([[3]], ['jnp.stack([v[0]*v[0][::-1], v[0]**2])'], (2, 3)),
    'prod': ([[4]], ['v[0][:2]*v[0][2:]'], (2,)),
    'dup': ([[4]], ['jnp.concatenate([v[0],v[0]]).reshape(2,4)', 'v[1].sum(0)'], (4,)),
    'one': ([[3]], ['v[0][1:2]'], (1,)),
    'col': ([[3]], ['v[0][:,None]'], (3, 1)),
    'last': ([[3]], ['v[0][2]*v[0][1]'], ()),
    'ragged': ([[4]], ['jnp.stack([v[0][0]*v[0][1]*v[0][2], v[0][3], v[0][0]+0.*v[0][1]])'], (3,)),
    'two': ([[2], [3]], ['v[0][:,None]*v[1][None,:]'], (2, 3)),
    'twocat': ([[2], [2, 2]], ['jnp.concatenate([v[0][None], v[1]])'], (3, 2)),
}


# ------------------------------------------------------------- one representative per rule
def compact(a, shape):
    """One operation per propagation rule (used to extend programs)."""
    sh = tuple(shape)
    nd = len(sh)
    n = int(np.prod(sh, dtype=int))
    out = [f'jnp.sin({a})', f'{a}**2', f'{a}*jnp.cos({a})', f'{a}/(1.5+{a}**2)', f'jnp.logaddexp({a}, jnp.sin({a}))', f'jax.nn.relu({a})']
    if n == 0:
        return []
    if nd >= 1:
        out += [
            f'jnp.sum({a}**2, axis=0)', f'jnp.sum({a}, axis={nd - 1})', f'jnp.prod({a}, axis=0)', f'jnp.max({a}, axis={nd - 1})',
            f'jax.nn.softmax({a}, axis=0)', f'jax.nn.logsumexp({a}, axis={nd - 1})', f'jnp.cumsum({a}, axis=0)',
            f'jnp.tensordot({a}, w({sh[-1]},2), ((({nd - 1},),(0,))))', f'jnp.tensordot(w(2,{sh[0]}), {a}, ((1,),(0,)))',
            f'jnp.tensordot({a}, jnp.sin({a}), (({nd - 1},),({nd - 1},)))' if n <= 12 else f'jnp.sum({a}*jnp.sin({a}))',
            f'{a}[::-1]*{a}', f'{a}[np.array([0,{sh[0] - 1},0])]', f'{a}[-1]', f'jnp.concatenate([{a}, c(*{(1,) + sh[1:]}), {a}**2], axis=0)' if n <= 12 else f'{a}[:1]',
            f'jnp.where(m(*{sh}), {a}, {a}**2)', f'{a}.at[0].set(0.7)', f'{a}.at[np.array([0,{sh[0] - 1}])].add(0.5)',
            f'c(*{sh}).at[{sh[0] - 1}].add({a}[0])', f'{a}.ravel()', f'{a}*jnp.sum({a}, axis=0, keepdims=True)',
            f'{a}[:1]*{a}', f'jnp.sort({a}, axis=0)', f'{a}-jnp.mean({a})', f'{a}*c(*{(2,) + (1,) * nd})' if n <= 12 else f'{a}*2.',
        ]
    else:
        out += [f'jnp.stack([{a}, 1.1*{a}])', f'{a}*c(3)', f'jnp.broadcast_to({a}, (2,2))', f'{a}**3', f'jnp.sqrt(0.4+{a}**2)']
    if nd >= 2:
        out += [f'jnp.swapaxes({a},0,1)', f'{a}@jnp.swapaxes({a},-1,-2)' if n <= 12 else f'jnp.sum({a}**2)', f'jnp.sum({a}, axis=(0,1))', f'{a}[:,0]', f'jnp.einsum("ij...,ij...->i...",{a},{a})']
    return out


def grow(limit=24, keep=None):
    """successor function: extends the program by every compact operation on its last value"""

    def succ(case, ref):
        sh = ref[0][0].shape
        if int(np.prod(sh, dtype=int)) > limit or len(sh) > 3:
            return []
        a = f'v[{len(case["in"]) + len(case["prog"]) - 1}]'
        out = []
        for e in compact(a, sh):
            if keep and not keep(e):
                continue
            nc = dict(case)
            nc['prog'] = case['prog'] + [e]
            out.append(nc)
        return out

    return succ


# ------------------------------------------------------------------- two structured operands
# name -> (inputs, program, left operand, right operand, shape left, shape right)
PAIRS = {
    'same': ([[3]], [], 'v[0]', 'v[0]', (3,), (3,)),
    'samefn': ([[3]], ['jnp.sin(v[0])'], 'v[0]', 'v[1]', (3,), (3,)),
    'disjoint': ([[3], [3]], [], 'v[0]', 'v[1]', (3,), (3,)),
    'rdisjoint': ([[3], [3]], [], 'v[1]', 'v[0]', (3,), (3,)),
    'shift': ([[4]], ['v[0][:3]', 'v[0][1:]'], 'v[1]', 'v[2]', (3,), (3,)),
    'rev': ([[3]], ['v[0][::-1]'], 'v[0]', 'v[1]', (3,), (3,)),
    'prodl': ([[3]], ['v[0]*v[0][::-1]'], 'v[1]', 'v[0]', (3,), (3,)),
    'prodr': ([[3]], ['v[0]*v[0][::-1]'], 'v[0]', 'v[1]', (3,), (3,)),
    'two2': ([[2], [2]], ['v[0]*v[1]', 'v[0]+v[1][::-1]'], 'v[2]', 'v[3]', (2,), (2,)),
    'sumr': ([[3]], ['v[0].sum()'], 'v[0]', 'v[1]', (3,), ()),
    'suml': ([[3]], ['v[0].sum()'], 'v[1]', 'v[0]', (), (3,)),
    'scal': ([[3]], ['v[0][1]'], 'v[0]', 'v[1]', (3,), ()),
    'scalar2': ([[], []], [], 'v[0]', 'v[1]', (), ()),
    'scalarsame': ([[]], [], 'v[0]', 'v[0]', (), ()),
    'denser': ([[3]], ['v[0]@w(3,3)'], 'v[0]', 'v[1]', (3,), (3,)),
    'densel': ([[3]], ['v[0]@w(3,3)'], 'v[1]', 'v[0]', (3,), (3,)),
    'outer': ([[2], [3]], ['v[0][:,None]'], 'v[2]', 'v[1]', (2, 1), (3,)),
    'outerself': ([[3]], ['v[0][:,None]', 'v[0][None]'], 'v[1]', 'v[2]', (3, 1), (1, 3)),
    'row': ([[2, 3], [3]], [], 'v[0]', 'v[1]', (2, 3), (3,)),
    'col': ([[2, 3], [2, 1]], [], 'v[0]', 'v[1]', (2, 3), (2, 1)),
    'rowself': ([[2, 3]], ['v[0][1]'], 'v[0]', 'v[1]', (2, 3), (3,)),
    'colself': ([[2, 3]], ['v[0].sum(1,keepdims=True)'], 'v[1]', 'v[0]', (2, 1), (2, 3)),
    'mid': ([[2, 1, 2], [3, 1]], [], 'v[0]', 'v[1]', (2, 1, 2), (3, 1)),
    'constpart': ([[2]], ['jnp.concatenate([v[0], c(1)])', 'jnp.concatenate([c(1), v[0]**2])'], 'v[1]', 'v[2]', (3,), (3,)),
    'constall': ([[3]], ['jnp.where(m(3), v[0], 1.2)', 'jnp.where(m(3), 0.8, v[0])'], 'v[1]', 'v[2]', (3,), (3,)),
    'one': ([[1], [3]], [], 'v[0]', 'v[1]', (1,), (3,)),
    'pairs': ([[3]], ['v[0][:,None]-v[0]', 'v[0]**2'], 'v[1]', 'v[2]', (3, 3), (3,)),
    'uneven': ([[4]], ['jnp.stack([v[0][0]*v[0][1]*v[0][2], v[0][3]])', 'jnp.stack([v[0][2], v[0][1]*v[0][0]])'], 'v[1]', 'v[2]', (2,), (2,)),
}


# -------------------------------------------------------------- three and four operands
# operands over the inputs v[0], v[1] of shape (3,) each
OPERANDS3 = {
    'id': 'v[0]', 'other': 'v[1]', 'rev': 'v[0][::-1]', 'prod': '(v[0]*v[1][::-1])', 'sum': 'v[0].sum()', 'scal': 'v[1][1]',
    'dense': '(v[0]@w(3,3))', 'const': 'c(3)', 'col': 'v[1][:2,None]', 'part': 'jnp.concatenate([v[0][1:],c(1)])',
}
TERNARY = [
    'CJ3({a},{b},{c})', '{a}*{b}-jnp.sin({c})*{a}', 'bc(lambda a,b,c: lax.clamp(0.2*a,b,5.+c**2),{a},{b},{c})', 'bc(lambda a,b,c: lax.clamp(a,b,c),{a},{b},{c})',
    'bc(lambda a,b,c: lax.select_n((np.arange(a.size).reshape(a.shape)%3).astype(np.int32),a,b,c**2),{a},{b},{c})',
    'jnp.where({a}>0.9,{b},{c}**2)', 'bc(lambda a,b,c: jnp.concatenate([a,b,c**2],-1),{a},{b},{c})', 'bc(lambda a,b,c: jnp.stack([a,b,c],-1).sum(0),{a},{b},{c})',
    'bc(lambda a,b,c: jnp.einsum("...i,...i,...i->...",a,b,c),{a},{b},{c})', 'bc(lambda a,b,c: a.at[...,:1].set(b[...,1:2]).at[...,np.array([2,1])].add(c[...,:2]),{a},{b},{c})',
    'jnp.logaddexp({a},jnp.logaddexp({b},{c}))', 'jax.jit(lambda a,b,c:(a*c,b-a*c))({a},{b},{c})', 'CJ4({a},{b},{c},{b})', 'CJ4({c},{a},{a},{b})', 'CJ4(c(3),{a},{b},{c})', 'CJ4({a},{b},c(),{c})',
]


def ternary(limit=None):
    """all operations on all triples of operands, at most one of them constant"""
    for (na, a), (nb, b), (nc, c_) in it.product(OPERANDS3.items(), repeat=3):
        if (na, nb, nc).count('const') > 1:
            continue
        for i, t in enumerate(TERNARY):
            yield (na, nb, nc), i, t.format(a=a, b=b, c=c_)


# ------------------------------------------- four axes, positions that vary along some of them
SH4 = (2, 3, 2, 2)


def gather_structures(shape=SH4, n=5):
    """arrays of the given shape whose sparsity pattern varies along each subset of the axes"""
    for r in range(len(shape) + 1):
        for S in it.combinations(range(len(shape)), r):
            yield S, f'v[0][ix({shape},{S},{n})]'
            if r:
                yield S, f'v[0][ix({shape},{S},{n})]*v[0][ix({shape},{S},{n},2)]'
                yield S, f'v[0][ix({shape},{S},{n})]*v[0][ix({shape},{S[:1]},{n},1)]'


def four_axes_reductions(a, nd=4):
    out = []
    for i, ax in enumerate(axis_subsets(nd)):
        for k in ('sum', 'prod', 'max'):
            out.append(f'jnp.{k}({a}, axis={ax}, keepdims={bool(i % 2)})')
        out.append(f'jnp.min({a}*c(*{SH4}), axis={ax})')
        out.append(f'jax.nn.logsumexp({a}, axis={ax})')
    for ax in range(nd):
        out += [f'jnp.cumsum({a}, axis={ax})', f'jnp.sort({a}*c(*{SH4}), axis={ax})', f'lax.cumprod({a}, axis={ax}, reverse=True)']
    return out


def four_axes_rearrangements(a, shape=SH4):
    nd = len(shape)
    out = [f'jnp.transpose({a}, {p})' for p in it.permutations(range(nd)) if p != tuple(range(nd))]
    out += [f'{a}.reshape({s})' for s in [(6, 4), (2, 12), (24,), (12, 2), (2, 6, 2), (3, 2, 2, 2), (4, 6), (2, 3, 4), (6, 2, 2), (1, 2, 3, 2, 2), (2, 3, 2, 2, 1), (2, 3, 1, 4)]]
    out += [f'jnp.flip({a}, {ax})' for ax in axis_subsets(nd)]
    for i in range(nd):
        pre = ':,' * i
        s = shape[i]
        out += [f'{a}[{pre}{s - 1}]', f'{a}[{pre}np.array([{s - 1},0,0])]', f'{a}[{pre}::2]', f'{a}[{pre}1:]', f'jnp.concatenate([{a},{a}**2],{i})', f'jnp.stack([{a},{a}[::-1]],{i})', f'jnp.repeat({a},2,{i})', f'jnp.roll({a},1,{i})',
                f'{a}.at[{pre}0].set(0.5)', f'{a}.at[{pre}{s - 1}].add({a}[{pre}0])', f'jnp.zeros({shape}).at[{pre}np.array([0,{s - 1}])].add({a}[{pre}:2])', f'jnp.where(m(*{shape},k={i}),{a},{a}[{pre}:1])', f'jnp.broadcast_to({a}[{pre}:1],{shape})*{a}', f'jnp.pad({a},{[(0, 0)] * i + [(1, 0)] + [(0, 0)] * (nd - i - 1)})']
        for j in range(i + 1, nd):
            p2 = ':,' * (j - i - 1)
            out += [f'{a}[{pre}np.array([0,{s - 1},0]),{p2}np.array([1,0,0])]', f'jnp.diagonal({a},axis1={i},axis2={j})', f'{a}[{pre}1,{p2}0]', f'{a}.at[{pre}np.array([0,1]),{p2}np.array([1,0])].add(0.5)']
    return out


def four_axes_contractions(a, shape=SH4):
    nd = len(shape)
    out = []
    b = f'jnp.sin({a})'
    for ax in axis_subsets(nd):
        out.append(f'jnp.tensordot({a}, w(*{tuple(shape[i] for i in ax)},2), ({ax},{tuple(range(len(ax)))}))')
        if len(ax) >= 2:
            out.append(f'jnp.tensordot({a}, {b}, ({ax},{ax}))')
    L = 'abcd'
    for r in range(1, nd):
        for batch in it.combinations(range(nd), r):
            for con in it.combinations([i for i in range(nd) if i not in batch], 1):
                free = [i for i in range(nd) if i not in batch and i not in con]
                bl = ''.join(L[i] for i in batch)
                out.append(f'jnp.einsum("{L},{bl}{L[con[0]]}->{bl}{"".join(L[i] for i in free)}",{a},w(*{tuple(shape[i] for i in batch) + (shape[con[0]],)}))')
                rl = ''.join(L[i].upper() if i in free else L[i] for i in range(nd))
                if len(free) <= 1:
                    out.append(f'jnp.einsum("{L},{rl}->{bl}{"".join(L[i] for i in free)}{"".join(L[i].upper() for i in free)}",{a},{b})')
    return out
