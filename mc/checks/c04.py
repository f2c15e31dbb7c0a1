"""Equivalent representations of propagated inputs, and composition through them.

The input of every program is x(z) = x0 + J z + L z_0^2 / 2 at z = 0, so the reference is JAX
forward mode in z, and folx receives x as a FwdLaplArray whose Jacobian J is stored in one of
many equivalent ways."""
import itertools as it

import catalog as K
import jax.numpy as jnp
import numpy as np
import prog
from core import Result
from folx.api import FwdJacobian, FwdLaplArray
from prog import CTX, inputs, parse_tm, run_fn

BOUNDS = dict(
    quick='13 equivalent representations of 4 dependency patterns x one operation per rule (two of them x all operations) on operands of shape (3,) and (2,2); all 8 x 8 pairs of representations x binary operations, joins and contractions; thresholds 0, 1, 3, 100; composition at the last operation for 21 structures',
    thorough='as quick with all operations and all 13 x 13 pairs on 16 pattern pairs, every threshold 0..4 and 100 for every representation, and composition at every operation of two-step extensions',
)
CHUNK = 8
N = 4
# which inputs each element depends on
PAT = {
    'diag': {3: [[0], [1], [2]], 4: [[0], [1], [2], [3]]},
    'pairs': {3: [[0, 1], [1, 3], [2, 0]], 4: [[0, 1], [1, 2], [2, 3], [3, 0]]},
    'uneven': {3: [[0, 2, 3], [], [1]], 4: [[0], [1, 2, 3], [], [3, 1]]},
    'same': {3: [[1, 2]] * 3, 4: [[2, 0]] * 4},
}
REPS = ['plain', 'desc', 'rot', 'padend', 'padfront', 'padmid', 'split', 'zero', 'full', 'fullrev', 'int64', 'dense', 'samezero']

QREPS = ['plain', 'desc', 'rot', 'padfront', 'split', 'zero', 'fullrev', 'dense']


def build_rep(rep, pattern, shape, seed_key):
    """returns (FwdLaplArray, x0, J (n, *shape), L)"""
    size = int(np.prod(shape))
    deps = PAT[pattern][size]
    r = prog._rng('rep', pattern, tuple(shape), seed_key)
    x0 = prog._generic((size,), r, 0.45, 1.6)
    J = np.zeros((N, size))
    for e, d in enumerate(deps):
        for i in d:
            J[i, e] = (0.4 + r.random()) * (1 if (i + e) % 2 else -1)
    L = 0.3 + r.random(size)
    # list of (index, value) per element
    ent = [[(i, J[i, e]) for i in sorted(d)] for e, d in enumerate(deps)]
    if rep == 'dense':
        jac = FwdJacobian(jnp.asarray(J.reshape((N,) + tuple(shape))), None)
    else:
        k = max(1, max(len(d) for d in deps))
        if rep == 'desc':
            ent = [e[::-1] for e in ent]
        elif rep == 'rot':
            ent = [e[i % len(e):] + e[: i % len(e)] if e else e for i, e in enumerate(ent)]
        elif rep == 'padend':
            k += 2
        elif rep == 'padfront':
            ent = [[(-1, 0.0)] * (k + 1 - len(e)) + e for e in ent]
            k += 1
        elif rep == 'padmid':
            ent = [e[:1] + [(-1, 0.0)] + e[1:] for e in ent]
            k += 1
        elif rep == 'split':
            ent = [[(i, 0.25 * v) for i, v in e] + [(i, 0.75 * v) for i, v in e] for e in ent]
            k *= 2
        elif rep == 'zero':
            ent = [[((i + 1) % N if (i + 1) % N not in deps[q] else i, 0.0) for i in range(1)] + e for q, e in enumerate(ent)]
            k += 1
        elif rep in ('full', 'fullrev'):
            ent = [[(i, J[i, q]) for i in (range(N) if rep == 'full' else [(2 * N - i - q) % N for i in range(N)])] for q in range(size)]
            k = N
        elif rep == 'samezero':
            # pad with a repeated valid index that carries no derivative
            ent = [e + [(e[0][0], 0.0)] * (k + 1 - len(e)) if e else [(0, 0.0)] * (k + 1) for e in ent]
            k += 1
        idx = np.full((k, size), -1, dtype=np.int64 if rep == 'int64' else np.int32)
        data = np.zeros((k, size))
        for q, e in enumerate(ent):
            for j, (i, v) in enumerate(e):
                idx[j, q], data[j, q] = i, v
        jac = FwdJacobian(jnp.asarray(data.reshape((k,) + tuple(shape))), idx.reshape((k,) + tuple(shape)))
    x = jnp.asarray(x0.reshape(shape))
    return FwdLaplArray(x, jac, jnp.asarray(L.reshape(shape))), x, J.reshape((N,) + tuple(shape)), L.reshape(shape)


def joins(a, b, n):
    return [
        f'jnp.concatenate([{a},{b}])', f'jnp.stack([{a},{b}],1)', f'jnp.concatenate([{a},c({n}),{b}])', f'jnp.where(m({n}),{a},{b})', f'{a}.at[0].set({b}[1])', f'{a}.at[:2].add({b}[1:])',
        f'jnp.dot({a},{b})', f'jnp.outer({a},{b})', f'jnp.einsum("i,j->ij",{a},{b})', f'{a}[:,None]-{b}', f'{a}[:1]*{b}', f'{a}*{b}[::-1]', f'{a}.sum()*{b}', f'{a}@jnp.outer({b},{b})',
        f'jnp.sum({a}*{b})', f'jnp.prod(jnp.stack([{a},{b}]),0)', f'jnp.max(jnp.stack([{a},{b}]),0)', f'jnp.sum(jnp.stack([{a},{b}])**2,0)', f'jax.nn.logsumexp(jnp.stack([{a},{b}]),0)',
        f'{a}+{b}.sum()', f'jnp.cross({a},{b})' if n == 3 else f'jnp.kron({a},{b})', f'({a}+1j*{b})*({b}-0.5j*{a})', f'jnp.abs({a}+1j*{b})',
    ]


def roots(tier):
    th = [['1e', '100e'], ['3e', '100e'], ['2e', '0e', '100e']] if tier == 'quick' else [['0e', '1e', '2e', '3e', '4e', '100e']] * 3
    i = 0
    for shape in ((3,), (2, 2)):
        ops = list(dict.fromkeys(K.all_unary('v[0]', shape)))
        comp = list(dict.fromkeys(K.compact('v[0]', shape)))
        for pat in PAT:
            for rep in REPS:
                rot = ops if tier == 'thorough' or (rep, pat) in (('split', 'pairs'), ('padmid', 'uneven')) else comp
                for e in rot:
                    i += 1
                    yield dict(kind='rep', shapes=[shape], reps=[[rep, pat]], prog=[e], tm=th[i % 3])
    ops = K.binary('v[0]', 'v[1]') + joins('v[0]', 'v[1]', 3)
    pats = [('pairs', 'uneven'), ('pairs', 'pairs'), ('same', 'diag')] if tier == 'quick' else list(it.product(PAT, PAT))
    for e in dict.fromkeys(ops):
        for j, (ra, rb) in enumerate(it.product(REPS, REPS) if tier == 'thorough' else it.product(QREPS, QREPS)):
            for q, (pa, pb) in enumerate(pats):
                if tier == 'quick' and (j + q) % 3:
                    continue
                i += 1
                yield dict(kind='rep', shapes=[(3,), (3,)], reps=[[ra, pa], [rb, pb]], prog=[e], tm=[['100e'], ['3e'], ['100e'], ['1e']][i % 4] if tier == 'quick' else ['1e', '3e', '100e'])
    # one propagated and one plain argument
    for e in dict.fromkeys(ops):
        for rep in REPS:
            for swap in (0, 1):
                reps = [[rep, 'uneven'], None]
                i += 1
                yield dict(kind='rep', shapes=[(3,), (3,)], reps=reps[::-1] if swap else reps, prog=[e], tm=th[i % 3][:1])
    # composition: the state after the prelude is fed to a second transformed function
    for p, (ins, pre, sh) in K.PRELUDES.items():
        a = f'v[{len(ins) + len(pre) - 1}]'
        for e in dict.fromkeys(K.compact(a, sh)):
            i += 1
            yield dict(kind='split', **{'in': ins, 'prog': pre + [e], 'tm': ['0e', '2e', '100e'] if tier == 'quick' else ['0e', '1e', '2e', '3e', '100e']})

    for rep, pat, shape, cplx in it.product(REPS, PAT, [(3,), (2, 2), (4,), (1, 3), (3, 1, 1)], (False, True)):
        yield dict(kind='attr', rep=rep, pat=pat, shape=shape, cplx=cplx)


def MAX_LEVEL(tier):
    return 1


def run(case, seed, tier):
    CTX['seed'] = seed
    if case['kind'] == 'rep':
        return run_rep(case)
    if case['kind'] == 'attr':
        return run_attr(case)
    r = run_split(case)
    if not r.bad and not r.skip and tier == 'thorough':
        f, args = prog.build(case), inputs(case)
        r.succ = K.grow(9)(case, prog.reference(f, args))
    return r


def run_rep(case):
    xs, fs, parts = [], [], []
    for k, (sh, rep) in enumerate(zip(case['shapes'], case['reps'])):
        sh = tuple(sh)
        if rep is None:
            c = prog.c(*sh, k=3)
            parts.append((c, None, None))
            fs.append(c)
            continue
        arr, x, J, L = build_rep(rep[0], rep[1], sh, k)
        fs.append(arr)
        parts.append((x, jnp.asarray(J), jnp.asarray(L)))
    f = prog.build({'in': case['shapes'], 'prog': case['prog']})

    def curve(z):
        return [x if J is None else x + jnp.tensordot(z, J, 1) + 0.5 * L * z[0] ** 2 for x, J, L in parts]

    z0 = jnp.zeros(N)
    try:
        ref = prog.reference(lambda z: f(*curve(z)), (z0,))
    except Exception as e:
        return Result(skip=f'reference rejects: {type(e).__name__}')
    if not prog.ref_ok(ref):
        return Result(skip='reference not finite')
    out = Result(key=[])
    for th, mode in parse_tm(case['tm']):
        try:
            got = prog.execute(f, tuple(fs), th, mode)
        except Exception as e:
            if e.__class__.__name__ == 'CaseTimeout':
                raise
            out.bad.append(f'th={th}: raised {type(e).__name__}: {str(e)[:200]}')
            continue
        out.runs += 1
        out.bad += [f'th={th}: {b}' for b in prog.compare(got, ref, N)]
        out.key.append([prog.state_of(l) for l in prog.lleaves(got)])
    return out


def run_attr(case):
    """Everything a result offers shows the same value, Jacobian and Laplacian."""
    shape = tuple(case['shape'])
    a, x, J, L = build_rep(case['rep'], case['pat'], shape, 0)
    x = np.asarray(x)
    if case['cplx']:
        z = 0.6 - 0.8j
        x, J, L = x * z, J * (z * 1j), L * (z + 1)
        a = FwdLaplArray(jnp.asarray(x), FwdJacobian(a.jacobian.data * (z * 1j), a.jacobian.x0_idx), jnp.asarray(L))
    res = Result(key=['attr'])
    tol = 1e-7

    def same(what, got, y, jac, lap):
        res.runs += 1
        if not prog.is_lpl(got):
            res.bad.append(f'{what}: not a propagated array')
            return
        res.bad.extend(f'{what}: {b}' for b in prog.check_leaf(got, y, np.moveaxis(jac, 0, -1), lap, N, tol))

    same('itself', a, x, J, L)
    same('dense', a.dense, x, J, L)
    if a.dense.jacobian.x0_idx is not None or a.dense.is_jacobian_weak:
        res.bad.append('dense: still sparse')
    same('real', a.real, x.real, J.real, L.real)
    same('imag', a.imag, x.imag, J.imag, L.imag)
    same('conj', a.conj(), x.conj(), J.conj(), L.conj())
    for dt in (np.complex128, np.complex64) + (() if case['cplx'] else (np.float64, np.float32)):
        tol = 1e-5
        same(f'astype {dt.__name__}', a.astype(dt), x.astype(dt), J.astype(dt), L.astype(dt))
    if not case['cplx']:
        i = a.astype(np.int32)
        if prog.is_lpl(i) or not np.array_equal(np.asarray(i), x.astype(np.int32)):
            res.bad.append('astype int32: wrong')
    for what, got, exp in (('shape', a.shape, x.shape), ('ndim', a.ndim, x.ndim), ('size', a.size, x.size), ('dtype', a.dtype, x.dtype), ('sparse', a.is_jacobian_weak, case['rep'] != 'dense')):
        if got != exp:
            res.bad.append(f'{what}: {got} expected {exp}')
    d = np.asarray(a.dense_jacobian)
    full = np.zeros((N,) + shape, d.dtype)
    full[: d.shape[0]] = d
    if d.shape[1:] != shape or not np.allclose(full, J):
        res.bad.append('dense_jacobian: wrong')
    if a.is_jacobian_weak:
        if a.jacobian_mask.shape != a.sparse_jacobian.shape or not np.allclose(prog.scatter_jac(a.sparse_jacobian, a.jacobian_mask, N), J):
            res.bad.append('sparse_jacobian and jacobian_mask: wrong')
    return res


def run_split(case):
    """composition of two transformed functions = transformation of the composition"""
    n_in = len(case['in'])
    args = inputs(case)
    whole = prog.build(case)
    ref = prog.reference(whole, args)
    if not prog.ref_ok(ref):
        return Result(skip='reference not finite')
    n = prog.total_n(args)
    out = Result(key=[])
    cut = len(case['prog']) - 1
    first = prog.build(dict(case, prog=case['prog'][:cut]))
    last = case['prog'][-1]
    used = n_in + cut - 1

    def second(u):
        v = [None] * used + [u]
        return prog._eval(last, v)

    if cut == 0:
        first = lambda *a: a[-1] * 1.0  # noqa: E731
    for th, mode in parse_tm(case['tm']):
        try:
            mid = prog.execute(first, args, th, mode)
            got = prog.execute(second, (mid,), th, mode)
        except Exception as e:
            if e.__class__.__name__ == 'CaseTimeout':
                raise
            out.bad.append(f'th={th}: composition raised {type(e).__name__}: {str(e)[:200]}')
            continue
        out.runs += 1
        out.bad += [f'th={th}: composition: {b}' for b in prog.compare(got, ref, n)]
        out.key.append([prog.state_of(l) for l in prog.lleaves(got)])
    return out
