"""Soundness of sparse Jacobians: (a) every program that keeps one, (b) all small sparse
Jacobians and all pairs of them through the public container operations, (c) chains of
node-wise layers stay sparse."""
import itertools as it

import catalog as K
import numpy as np

BOUNDS = dict(
    quick='one half of catalogue x 21 structures (the other half is in C02) at the threshold that keeps everything sparse; all sparse Jacobians with 2 elements, 1 or 2 entries, 3 inputs (272), all pairs with one entry and all pairs with two entries that have the same inputs or differ in one; node-wise chains of depth 2 whose sparse storage is bounded by the inputs of a node and agrees between absolute and fractional thresholds',
    thorough='as quick at 4 thresholds plus one further operation on each new sparsity state; all pairs with up to two entries; node-wise chains of depth 3',
)
CHUNK = 8

LAYERS = {
    'lin': '{a}@w({d},3)', 'lin2': 'jnp.einsum("id,dk->ik",{a},w({d},2))', 'tanh': 'jnp.tanh({a})', 'silu': 'jax.nn.silu({a})', 'bias': '{a}+c({d})',
    'ln': 'jax.nn.softmax({a},axis=-1)', 'sum': '{a}.sum(-1,keepdims=True)', 'norm': 'jnp.sqrt((0.1+{a}**2).sum(-1,keepdims=True))',
    'split': '{a}.reshape({n},{d},1).reshape({n},{d})', 'rev': '{a}[:,::-1]', 'mulc': '{a}*c({n},1)', 'prod': 'jnp.prod({a},axis=-1,keepdims=True)',
    'lse': 'jax.nn.logsumexp({a},axis=-1,keepdims=True)', 'max': '{a}.max(-1,keepdims=True)', 'swap': '({a}.T[::-1].T)', 'linT': '(w(2,{d})@{a}.T).T',
}
OUTD = dict(lin=3, lin2=2, sum=1, norm=1, prod=1, lse=1, max=1, linT=2)


def chains(depth, n, d0):
    for names in it.product(LAYERS, repeat=depth):
        d, prog = d0, []
        ok = True
        for i, l in enumerate(names):
            prog.append(LAYERS[l].format(a=f'v[{i}]', n=n, d=d))
            d = OUTD.get(l, d)
        if ok:
            yield names, prog


def roots(tier):
    i = 0
    for p, (ins, pre, sh) in K.PRELUDES.items():
        a = f'v[{len(ins) + len(pre) - 1}]'
        for e in dict.fromkeys(K.all_unary(a, sh)):
            i += 1
            if tier == 'quick' and (i + len(p)) % 2:
                continue
            tm = [['100e'], ['100j']][i // 2 % 2] if tier == 'quick' else ['2j', '4e', '100e', '100j']
            yield dict(kind='prog', **{'in': ins, 'prog': pre + [e], 'tm': tm})
    for p, (ins, pre, a, b, sa, sb) in K.PAIRS.items():
        for e in K.binary(a, b):
            yield dict(kind='prog', **{'in': ins, 'prog': pre + [e], 'tm': ['100e', '4j']})
    # all sparse Jacobians over 2 elements and 3 inputs
    for k in (1, 2):
        for code in range(4 ** (2 * k)):
            yield dict(kind='jac', k=k, code=code, partners=[1] if tier == 'quick' else [1, 2])
    for depth in (1, 2) if tier == 'quick' else (1, 2, 3):
        for n, d in ((3, 2), (2, 3)) if depth < 3 else ((3, 2),):
            for names, prog in chains(depth, n, d):
                yield dict(kind='node', **{'in': [[n, d]], 'prog': prog, 'tm': [f'{d}e', '100j'] if depth < 2 or tier == 'thorough' else ['100e']}, d=d)


def MAX_LEVEL(tier):
    return 0 if tier == 'quick' else 1


def mk_idx(k, code):
    return np.array([(code // 4 ** i) % 4 - 1 for i in range(2 * k)], dtype=np.int32).reshape(k, 2)


def related(i, j):
    same = [set(i[:, e]) == set(j[:, e]) for e in range(i.shape[1])]
    return all(same) or (i != j).sum() == 1


def mk(k, code, off=0.0):
    import jax.numpy as jnp
    from folx.api import FwdJacobian

    idx = mk_idx(k, code)
    data = np.arange(1, 2 * k + 1, dtype=float).reshape(k, 2) + off
    data = np.where(idx < 0, 0.0, data)
    return FwdJacobian(jnp.asarray(data), idx), idx, data


def run(case, seed, tier):
    import prog

    if case['kind'] == 'prog':
        return prog.run_program(case, seed, succ=K.grow(9))
    if case['kind'] == 'jac':
        return run_jac(case)
    r = prog.run_program(case, seed)
    # node-wise chains keep the sparse form
    if not r.bad and not r.skip and r.key:
        f, args = prog.build(case), prog.inputs(case)
        leaf = prog.execute(f, args, case['d'], 'e')
        idx = leaf.jacobian.x0_idx
        if idx is None:
            r.bad.append('node-wise chain lost its sparse Jacobian')
        elif foreign(idx, leaf, case):
            r.bad.append('node-wise chain: an element refers to inputs of another node')
        elif not any('softmax' in e for e in case['prog']) and np.asarray(leaf.jacobian.data).shape[0] > case['d']:
            r.bad.append(f'node-wise chain stores {leaf.jacobian.data.shape[0]} entries for {case["d"]} node inputs')
        # a fraction stands for that share of the inputs
        n = prog.total_n(args)
        for th in (case['d'], 1, case['d'] - 1):
            if 0 < th < n:
                frac = prog.execute(f, args, (th + 0.5) / n, 'e')
                whole = leaf if th == case['d'] else prog.execute(f, args, th, 'e')
                r.runs += 1
                if prog.state_of(frac) != prog.state_of(whole):
                    r.bad.append(f'threshold {(th + 0.5) / n:.3f} of {n} inputs differs from threshold {th}')
    return r


def foreign(idx, leaf, case):
    n, d = case['in'][0]
    ia = np.broadcast_to(np.asarray(idx), np.asarray(leaf.jacobian.data).shape)
    if ia.ndim < 2 or ia.shape[1] != n:
        return True
    node = np.arange(n).reshape((1, n) + (1,) * (ia.ndim - 2))
    return bool(np.any((ia >= 0) & (ia // d != node)))


def run_jac(case):
    import jax.numpy as jnp
    from core import Result
    from folx.api import FwdLaplArray
    from prog import scatter_jac

    res = Result()
    a, ia, da = mk(case['k'], case['code'])
    n = 3
    ta = scatter_jac(da, ia, n)

    def same(name, got, want):
        res.runs += 1
        got = np.asarray(got)
        if got.shape[1:] != want.shape[1:] or got.shape[0] > n:
            res.bad.append(f'{name}: shape {got.shape}')
            return
        full = np.zeros(want.shape, got.dtype)
        full[: got.shape[0]] = got
        if not np.allclose(full, want, atol=1e-12):
            res.bad.append(f'{name}: wrong content for index {ia.tolist()}')

    same('dense_array', a.dense_array, ta)
    same('as_dense', a.as_dense.dense_array, ta)
    if a.as_dense.weak or not a.weak:
        res.bad.append('weak flag wrong')
    x = jnp.asarray([0.3, -0.7])
    arr = FwdLaplArray(x, a, jnp.asarray([0.1, 0.2]))
    same('FwdLaplArray.dense', arr.dense.jacobian.data, ta)
    same('dense_jacobian', arr.dense_jacobian, ta)
    f4 = arr.astype(jnp.float32)
    same('astype', f4.jacobian.dense_array, ta)
    if f4.jacobian.dense_array.dtype != jnp.float32 or f4.x.dtype != jnp.float32:
        res.bad.append('astype: dtype')
    z = FwdLaplArray(x * (1 + 2j), a._replace(data=a.data * (1 + 2j)), arr.laplacian * (1 + 2j))
    same('real', z.real.jacobian.dense_array, ta)
    same('imag', z.imag.jacobian.dense_array, 2 * ta)
    same('conj', z.conj().jacobian.dense_array, (1 - 2j) * ta)
    for k in case['partners']:
        for code in range(4 ** (2 * k)):
            b, ib, db = mk(k, code, 10.0)
            tb = scatter_jac(db, ib, n)
            same(f'add {ib.tolist()}', (a + b).dense_array, ta + tb)
            s = a + b
            if s.x0_idx is not None:
                si = np.broadcast_to(np.asarray(s.x0_idx), s.data.shape)
                if si.min() < -1 or si.max() >= n:
                    res.bad.append('add: index out of range')
                elif not np.allclose(scatter_jac(s.data, si, n), ta + tb):
                    res.bad.append(f'add: entries of {ia.tolist()} + {ib.tolist()}')
            if code % 7 == 0:
                same(f'add dense {ib.tolist()}', (a + b.as_dense).dense_array, ta + tb)
                same(f'dense add {ib.tolist()}', (b.as_dense + a).dense_array, ta + tb)
    # the same inputs in another order or with other multiplicities, and one input replaced
    near = {code for code in range(4 ** (2 * case['k'])) if related(ia, mk_idx(case['k'], code))} if case['k'] == 2 and 2 not in case['partners'] else ()
    for code in near:
        b, ib, db = mk(case['k'], code, 10.0)
        s = a + b
        res.runs += 1
        tb = scatter_jac(db, ib, n)
        got = s.dense_array if s.x0_idx is None else scatter_jac(s.data, np.broadcast_to(np.asarray(s.x0_idx), s.data.shape), n)
        if not np.allclose(got, (ta + tb)[: len(got)]):
            res.bad.append(f'add: entries of {ia.tolist()} + {ib.tolist()}')
    res.key = ['jac', case['k'], case['code']]
    return res
