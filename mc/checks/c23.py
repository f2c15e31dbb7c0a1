"""Truthful annotations of user functions: all combinations, operand structures, thresholds."""
import ast

import jax
import jax.numpy as jnp
import prog
from core import Result
from folx import deregister_function, register_function, wrap_forward_laplacian
from folx.api import FunctionFlags as F
from folx.api import FwdLaplArray
from folx.utils import get_reduced_jacobians, trace_jac_jacT
from prog import CTX, NS, run_fn

BOUNDS = dict(
    quick='50 functions x all truthful annotations (relevant axes in every notation x flags x custom trace rule) x 7-20 operand structures, one of 6 thresholds each (rotating)',
    thorough='as quick with all thresholds, eager and compiled',
)
CHUNK = 12

# operand structures over inputs v0 (2,3), v1 (2,3), v2 (1,3), v3 (): expression per operand
ONE = {
    'diag': 'v0', 'pair': 'v0*v0[:,::-1]', 'rowsum': 'v0.sum(1,keepdims=True)*v0', 'colsum': 'v0.sum(0)*v0', 'full': 'v0.sum()*v0', 'mask': 'jnp.where(m(2,3),v0,.8)', 'bcast': 'v2+c(2,3)', 'same': 'v3*c(2,3)', 'sum2': 'v0*v1',
}
TWO = {
    'self': ('v0', 'v0'), 'disjoint': ('v0', 'v1'), 'overlap': ('v0*v1', 'v1[:,::-1]*v0'), 'left': ('v0', 'c(2,3)'), 'right': ('c(2,3)', 'v0*v1'), 'dense-sparse': ('v0.sum()*v0', 'v1'), 'sparse-dense': ('v1', 'v0.sum()*v0'),
    'rows': ('v0.sum(1,keepdims=True)*v1', 'v0'), 'bc-right': ('v0', 'v2'), 'bc-left': ('v2', 'v0*v1'), 'same-one': ('v3*c(2,3)', 'v0'), 'mask': ('jnp.where(m(2,3),v0,.8)', 'jnp.where(m(2,3),.7,v0)'), 'mask2': ('jnp.where(m(2,3),v0,.8)', 'v1'), 'vector': ('v0', 'v2[0]'), 'const-vector': ('v0*v1', 'c(3)'), 'full-full': ('v0.sum()*v0', 'v0.sum(1,keepdims=True)+v1'),
}
# operands with a further batch dimension; only for annotations that do not count axes from the front
ONE3 = {'batch': 'v0[:,None]*v1[None]', 'batch-dense': '(v0[:,None]*v1[None]).sum(1,keepdims=True)*v0'}
TWO3 = {'outer': ('v0[:,None]', 'v1[None]'), 'outer2': ('v0[:,None]*v1', 'v1'), 'deep': ('v0', 'v0[None]*v1[:,None]'), 'deep-const': ('v0[:,None]*v1', 'c(2,3)')}
THREE = {'disjoint': ('v0', 'v1', 'v2'), 'self': ('v0', 'v0', 'v0'), 'one': ('v0', 'c(2,3)', 'c(2,3)'), 'last': ('c(2,3)', 'c(2,3)', 'v0*v1'), 'two': ('v0', 'c(2,3)', 'v0+v1'), 'dense': ('v0', 'v1', 'v0.sum()*v1'), 'first-last': ('v0.sum(1,keepdims=True)', 'v1', 'v2')}
G, J, S = F.GENERAL, F.JOIN_JVP, F.SPARSE_JHJ
GEN = [G, J, S, J | S]
RED = GEN + [F.REDUCTION, F.REDUCTION | J]
LIN1 = [F.LINEAR, F.LINEAR_IN_ONE, F.LINEAR_IN_FIRST, F.LINEAR | J]
EW = [None, (), (-1,), (1,), -1, (0, 1), (-2, -1)]
LAST = [None, -1, (-1,), (1,), (-2, -1), (0, 1)]
ALL = [None, (0, 1), (-2, -1), (-1, -2)]
COLS = [None, (0,), 0, (-2,), (0, 1)]


def custom_cube(args, extra_args, merge, idx):
    (j,) = get_reduced_jacobians(*args.jacobian, idx=idx)
    return (6 * args.x[0].reshape(-1) * (j * j).sum(0)).reshape(args.x[0].shape)


def custom_square(args, extra_args, merge, idx):
    (j,) = args.jacobian
    return 2 * trace_jac_jacT(j, j, idx)


def custom_mul(args, extra_args, merge, idx):
    if len(args.arrays) == 1:
        return jnp.zeros(())
    a, b = get_reduced_jacobians(*args.jacobian, idx=idx)
    return 2 * (a * b).sum(0).reshape(())


# (function over a, b, c; axes; flags; custom trace rules; index_static_args)
FN = [
    # one operand, elementwise
    ('jnp.sin(a)', EW, GEN), ('2.5*a', EW, GEN + LIN1), ('-a', EW, [F.LINEAR, F.LINEAR_IN_ONE]), ('a**3', EW, [G]), ('a**3', [(), None, (-1,)], [G, S], custom_cube), ('jnp.exp(1j*a)', EW, [G, J]), ('(jnp.sin(a),a*a)', EW, [G, J]), ('jnp.where(a>.9,a*a,a)', EW, [G]), ('a*c(3)', [(-1,), None, (0, 1)], [G, F.LINEAR]), ('jnp.float32(2.)*a+1', EW, [F.LINEAR]),
    ('jax.nn.gelu(a)', EW, [G, S]), ('a[None]*1.', [None, (0, 1)], [G, F.LINEAR, F.LINEAR | F.INDEXING]),
    # reductions along the last axis
    ('a.sum(-1)', LAST, RED + LIN1), ('a.sum(-1)', [None], [F.LINEAR | F.REDUCTION]), ('a.sum(-1)', [-1, (-1,), (1,)], [F.SUMMATION]), ('a.prod(-1)', LAST, RED), ('jax.nn.logsumexp(a,-1)', LAST, RED), ('a.max(-1)', LAST, RED + [F.LINEAR]), ('jnp.linalg.norm(a,axis=-1)', LAST, RED), ('(a**2).sum(-1)', [-1, (-1,), (1,)], [F.REDUCTION, G, S], custom_square), ('a[...,0]*a[...,1]', LAST, RED),
    ('a.sum(-1,keepdims=True)', [None, (-1,)], [G, F.LINEAR]), ('(a.sum(-1),a.prod(-1))', LAST, [G, J]),
    # keeping the last axis
    ('jax.nn.softmax(a,-1)', LAST, GEN), ('jnp.cumsum(a,-1)', LAST, [G, F.LINEAR]), ('a[...,::-1]*a', LAST, GEN), ('a*a.sum(-1,keepdims=True)', LAST, [G, J]), ('jnp.stack([a[...,0],a[...,1]**2],-1)', LAST, [G]), ('(a[...,None]*a[...,None,:])', LAST, [G, S]), ('(jax.nn.softmax(a,-1),a.prod(-1))', LAST, [G]),
    # all axes, and the leading axis
    ('a.sum()', ALL, RED + LIN1), ('a.sum()', ALL, [F.SUMMATION]), ('jnp.prod(a)', ALL, RED), ('jnp.linalg.det(a[:,:2])', ALL, [G, S]), ('a@a.T', ALL, [G]), ('jnp.outer(a,a)', ALL, [G]), ('a.sum(0)', COLS, [G, F.REDUCTION, F.LINEAR]), ('a.prod(0)', COLS, [G, F.REDUCTION]), ('jax.nn.logsumexp(a,0)', COLS, [G, J]), ('a.sum(0)', [(0,), 0, (-2,)], [F.SUMMATION]),
    # indexing
    ('a[:,::-1]', [None], [F.INDEXING, F.LINEAR, G, J]), ('a.T', [None], [F.INDEXING, F.LINEAR, G]), ('a[0]', [None], [F.INDEXING, G]), ('jnp.repeat(a,2,0)', [None], [F.INDEXING, F.LINEAR]), ('jnp.stack([a,a])', [None], [F.INDEXING, F.LINEAR]), ('a.reshape(-1)[jnp.array([0,5,2,2])]', [None], [F.INDEXING, F.LINEAR]), ('jnp.broadcast_to(a[:,None],(2,2,3))', [None], [F.INDEXING, G]),
    # two operands
    ('jnp.einsum("...i,...i->...",a,b*b)', [-1, ((-1,), (-1,))], [G, F.LINEAR_IN_FIRST]), ('(a*b).sum(-1)/b.sum(-1)', [-1], [G, F.LINEAR_IN_FIRST, F.REDUCTION]), ('jax.nn.softmax(a*b,-1)', [-1, None], [G, J]),
    ('a+b', [(), None, ((), ())], [F.LINEAR, G, J, S]), ('a-2*b', [(), None], [F.LINEAR, G]), ('a*b', [(), ((), ())], [F.MULTIPLICATION, F.MULTIPLICATION | J]), ('a*b', [(), None, ((), ())], [F.LINEAR_IN_ONE, F.LINEAR_IN_FIRST, G, J, S, F.LINEAR_IN_ONE | J]), ('a*b', [(), ((), ())], [F.MULTIPLICATION, F.LINEAR_IN_ONE], custom_mul),
    ('a/b', [(), None], [F.LINEAR_IN_FIRST, G, J]), ('jnp.arctan2(a,b)', [(), None], [G, J, S]), ('a**b', [()], [G]), ('2*a*b', [()], [F.LINEAR_IN_ONE, F.LINEAR_IN_ONE | J]), ('(a*b,a+b)', [(), None], [G, J]), ('jnp.logaddexp(a,b)', [()], [G]),
    ('jnp.where(a>b,a,2*b)', [()], [F.LINEAR, G]), ('(a*b).sum(-1)', [-1, (-1,), ((-1,), (-1,))], [F.DOT_PRODUCT, F.MULTIPLICATION, F.LINEAR_IN_ONE, G, F.REDUCTION, J, F.DOT_PRODUCT | J, F.LINEAR_IN_ONE | F.REDUCTION]), ('(a*b).sum(-1)', [None], [F.LINEAR_IN_ONE, G]), ('(a*w(3)*b).sum(-1)', [-1], [F.LINEAR_IN_ONE, G, F.REDUCTION]),
    ('a.sum(-1)*b.sum(-1)', [-1, ((-1,), (-1,))], [F.LINEAR_IN_ONE, F.LINEAR_IN_FIRST, G, S]), ('a.sum(-1)*b.prod(-1)', [-1, None], [F.LINEAR_IN_FIRST, G]), ('a[...,None]*b[...,None,:]', [-1], [F.LINEAR_IN_ONE, G]), ('jnp.sin(a.sum(-1))*b.prod(-1)', [-1, (-1,), None], [G, F.REDUCTION, J]), ('(a*b).sum()', [None], [F.LINEAR_IN_ONE, G]),
    ('jnp.concatenate([a,b])', [None], [F.INDEXING, F.LINEAR, G]), ('jnp.where(m(2,3),a,b)', [None], [F.INDEXING, F.LINEAR]),
    # three operands
    ('a*b*c', [(), None], [G, J, S]), ('a+b*2-c', [()], [F.LINEAR, G]), ('(a*b*c).sum(-1)', [-1, ((-1,), (-1,), (-1,))], [G, F.REDUCTION, J]), ('a*jnp.sin(b)/c', [()], [G, F.LINEAR_IN_FIRST]), ('(jnp.exp(a)*b*c).sum(-1)', [None], [G]),
]
INDEXED = [
    # (function, operands, static arguments): constants in static positions are used as they are
    ('jnp.take(a,b,axis=1)', ('v0', 'np.array([2,0,0])'), [(1,), slice(1, None)]), ('a[b,c]', ('v0', 'np.array([1,0])', 'np.array([2,2])'), [(1, 2), slice(1, None), slice(1, 3)]), ('jnp.where(a,b,c)', ('m(2,3)', 'v0', 'v1'), [(0,), slice(0, 1)]), ('jnp.where(a,b,c)', ('m(2,3)', 'v0*v1', 'c(2,3)'), [(0,), slice(0, 1)]), ('jnp.take_along_axis(a,b,axis=1)', ('v0*v0[:,::-1]', 'np.array([[0],[2]])'), [(1,)]), ('jnp.concatenate([a,b])', ('v0', 'c(2,3)'), [()]), ('jnp.concatenate([b,a])', ('v0', 'c(2,3)'), [()]),
    ('lax.dynamic_slice(a,(b,c),(1,2))', ('v0', 'np.int32(1)', 'np.int32(5)'), [(1, 2), slice(1, None)]),
]


def structures(expr):
    names = {n.id for n in ast.walk(ast.parse(expr, mode='eval')) if isinstance(n, ast.Name) and n.id in 'abc' and not isinstance(getattr(n, 'ctx', None), ast.Store)}
    calls = {n.func.id for n in ast.walk(ast.parse(expr, mode='eval')) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)}
    names -= calls
    return {1: {**ONE, **ONE3}, 2: {**TWO, **TWO3}, 3: THREE}[len(names)], len(names)


TH = [0, 100, 2, 1, 3, 6]


def roots(tier):
    i = 0
    for f, spec in enumerate(FN):
        st, _ = structures(spec[0])
        for ax in range(len(spec[1])):
            for fl in range(len(spec[2])):
                for s in st:
                    if (s in ONE3 or s in TWO3) and not (batches(spec[0]) and spec[1][ax] in BATCH_AXES):
                        continue
                    i += 1
                    if tier == 'quick' and s in [*ONE3, *TWO3] and i % 2:
                        continue
                    if tier == 'quick':
                        tm = [f'{TH[(i // 6 + i) % 6]}{"ej"[i % 11 == 0]}']
                    else:
                        tm = [f'{t}{m}' for t in TH for m in 'ej']
                    yield dict(f=f, ax=ax, fl=fl, s=s, tm=tm)
    for f, (_, ops, static) in enumerate(INDEXED):
        for k in range(len(static)):
            yield dict(f=f, idx=k, tm=[f'{t}e' for t in TH])


NAME = 'mc_annotated'
BATCH_AXES = [None, (), -1, (-1,), ((), ()), ((-1,), (-1,))]


def batches(expr):
    """functions of the last axis or of single entries (the others presuppose matrices)"""
    return not any(q in expr for q in ('.sum()', '.sum(0)', 'prod(a)', 'prod(0)', ',0)', 'det', '.T', 'outer', 'a[0]', 'a[:', 'concatenate', 'stack([a,', 'repeat', 'reshape', 'm(2,3)', 'broadcast_to'))


def run(case, seed, tier):
    CTX['seed'] = seed
    kw = {}
    if 'idx' in case:
        expr, ops, static = INDEXED[case['f']]
        kw = dict(flags=F.INDEXING, index_static_args=static[case['idx']] if static[case['idx']] != () else ())
        n = len(ops)
    else:
        spec = FN[case['f']]
        expr = spec[0]
        st, n = structures(expr)
        ops = st[case['s']]
        ops = (ops,) if isinstance(ops, str) else ops
        kw = dict(in_axes=spec[1][case['ax']], flags=spec[2][case['fl']])
        if isinstance(kw['in_axes'], tuple) and kw['in_axes'] and isinstance(kw['in_axes'][0], tuple) and len(kw['in_axes']) != n:
            return Result()
        if len(spec) > 3:
            kw['custom_jac_hessian_jac'] = spec[3]
    co = compile(expr, '<ann>', 'eval')

    def fn(*xs):
        return eval(co, {**NS, **({'c': NS['c']} if n < 3 else {}), **dict(zip('abc', xs))})

    def traced(*xs):
        return fn(*xs)

    traced.__name__ = traced.__qualname__ = NAME
    named = jax.jit(traced)
    pre = [compile(o, '<op>', 'eval') for o in ops]

    def f(*v):
        xs = [eval(o, {**NS, **{f'v{i}': q for i, q in enumerate(v)}}) for o in pre]
        return named(*xs)

    rule = wrap_forward_laplacian(fn, name=NAME, **kw)
    calls = []

    def counted(args, kwargs, sparsity_threshold):
        calls.append(1)
        out = rule(args, kwargs, sparsity_threshold=sparsity_threshold)
        # rules return one result or a list of results
        return list(out) if isinstance(out, tuple) and not isinstance(out, FwdLaplArray) else out

    args = tuple(prog.inp(s, k) for k, s in enumerate([(2, 3), (2, 3), (1, 3), ()]))
    register_function(NAME, counted)
    try:
        res = run_fn(f, args, prog.single(prog.parse_tm(case['tm']), case))
    finally:
        deregister_function(NAME)
    if not res.skip and len(calls) < len(case['tm']):
        res.bad.append(f'the rule was used {len(calls)} times in {len(case["tm"])} evaluations')
    return res

