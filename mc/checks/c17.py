"""The Laplacian operators against each other and nested differentiation."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import prog
from core import Result
from folx import ForwardLaplacianOperator, LoopLaplacianOperator, ParallelLaplacianOperator
from prog import CTX

BOUNDS = dict(
    quick='3 operators (forward at 7 thresholds) x 8 input shapes x 30 scalar functions x 2 of 9 ways of calling; stationary points (some or all inputs zero) of 4 shapes; compositions with batching over all axes; complex valued functions and single precision',
    thorough='all combinations of calling twice composed, thresholds 0..n+1 and fractions',
)
CHUNK = 6
SHAPES = [[1], [2], [3], [5], [], [2, 2], [1, 3], [2, 1, 2]]
# F is the flat input, x the input in its shape
FUNS = [
    'jnp.sum(x)', 'jnp.sum(x**2)', 'jnp.prod(x)', 'jnp.sin(F).sum()*F[0]', 'F[0]**3', 'F[-1]*jnp.exp(F[0])', 'jnp.max(x)', 'jnp.linalg.norm(F)', 'jnp.tanh(w(3,F.shape[0])@F).sum()', 'jax.nn.logsumexp(x)', 'jnp.linalg.slogdet(jnp.outer(F,F)+jnp.diag(jnp.exp(F)))[1]', 'jnp.log(jnp.abs(x)).sum()',
    'jnp.sum(F[:1]*F[-1:])', 'jnp.where(x>.9,x**2,x**3).sum()', 'F[:(F.shape[0]+1)//2].sum()**2', 'F[F.shape[0]//2:].sum()**2', 'F[F.shape[0]//2]*2.', 'lax.stop_gradient(x).sum()*F[0]', 'lax.scan(lambda h,a:(jnp.sin(h*a),None),F@jnp.ones((F.shape[0],2)),jnp.ones(2))[0].sum()', 'jax.nn.silu(F@jnp.cos(jnp.outer(F,F))@F)',
    'jnp.sort(F)[0]*jnp.sort(F)[-1]', 'jnp.cumsum(F)[-1]**2/F[0]', 'jnp.mean(x)**2', 'jnp.var(x)', 'jnp.vdot(F,c(F.shape[0]))', 'jnp.sqrt(jnp.sum(x*x)+1.)', 'jnp.sum(jnp.triu(jnp.outer(F,F)))', 'jnp.exp(-F@F)', 'jnp.cos(F).sum()+F[0]**4', 'jnp.sin(F[0]*F[-1])*jnp.cos(F[0])',
]
CPX = ['jnp.sum(F*(1+2j))**2', 'jnp.exp(1j*F.sum())', 'jnp.prod(F+1j)', 'jnp.abs(jnp.sum(F*1j)+1.)', 'jnp.real(jnp.exp(1j*F).sum())']
OPS = ['f0', 'f1', 'f2', 'f0.3', 'f0.75', 'f6', 'f100', 'loop', 'par']
CALL = ['plain', 'jit', 'vmap', 'jitvmap', 'vmapjit', 'gradp', 'scan', 'twice', 'numpy']


def op(name):
    if name == 'loop':
        return LoopLaplacianOperator()
    if name == 'par':
        return ParallelLaplacianOperator()
    t = name[1:]
    return ForwardLaplacianOperator(float(t) if '.' in t else int(t))


def roots(tier):
    i = 0
    for s in SHAPES:
        for j, f in enumerate(FUNS):
            for k, o in enumerate(OPS):
                i += 1
                if tier == 'thorough':
                    calls = CALL
                else:
                    calls = [CALL[(i + j) % len(CALL)], CALL[(i + j + 4) % len(CALL)]]
                yield dict(shape=s, f=f, op=o, calls=calls)
    for s in ([3], [2, 2], []):
        for f in FUNS[:: 1 if tier == 'thorough' else 3]:
            for o in OPS:
                yield dict(shape=s, f=f, op=o, calls=['plain'], dtype='float32')
    # stationary points: some or all inputs vanish
    for s in ([], [1], [3], [2, 2]):
        for j, f in enumerate(FUNS):
            for o in OPS if tier == 'thorough' else ['f0', ['f1', 'f2', 'f6', 'f0.75'][j % 4], 'loop', 'par']:
                for at in ('zero', 'half'):
                    yield dict(shape=s, f=f, op=o, calls=['plain'], at=at)
    for s in ([2], [2, 2]):
        for f in CPX:
            for o in OPS[:7]:
                yield dict(shape=s, f=f, op=o, calls=['plain', 'jit', 'vmap'] if tier == 'thorough' else [['plain', 'jit', 'vmap'][i % 3]])
                i += 1


def truth(f, x):
    flat = x.reshape(-1)

    def g(v):
        return f(v.reshape(x.shape))

    y, J, L = prog.reference(g, (flat,))
    return L[0], J[0]


def run(case, seed, tier):
    CTX['seed'] = seed
    co = compile(case['f'], '<f>', 'eval')

    def fp(x, p):
        return eval(co, {**prog.NS, 'x': x, 'F': x.reshape(-1)}) * p

    def f(x):
        return eval(co, {**prog.NS, 'x': x, 'F': x.reshape(-1)})

    sh = tuple(case['shape'])
    dt = case.get('dtype')
    tol = 1e-7 if dt is None else 2e-3
    xs = [prog.inp(sh, k, dtype=dt) for k in (0, 1)]
    if case.get('at') == 'zero':
        xs = [0.0 * x for x in xs]
    elif case.get('at') == 'half':
        xs = [jnp.where(np.arange(x.size).reshape(sh) % 2 == k, 0.0, x) for k, x in enumerate(xs)]
    want = []
    for x in xs:
        try:
            want.append(truth(f, x.astype(jnp.float64)))
        except Exception as e:
            if e.__class__.__name__ == 'CaseTimeout':
                raise
            return Result(skip=f'reference rejects: {type(e).__name__}')
    if not prog.ref_ok([[a for a in part] for part in want]):
        return Result(skip='reference not finite')
    if case['op'] in ('loop', 'par') and np.iscomplexobj(want[0][0]):
        return Result(skip='the reference operators are for real functions')
    res = Result(key=[])

    def check(label, got, w, lead=()):
        res.runs += 1
        if not (isinstance(got, tuple) and len(got) == 2):
            res.bad.append(f'{label}: result is {type(got).__name__}')
            return
        for name, a, b in (('laplacian', got[0], w[0]), ('gradient', got[1], w[1])):
            a = np.asarray(a)
            if a.shape != b.shape:
                res.bad.append(f'{label}: {name} has shape {a.shape}, expected {b.shape}')
            elif not prog.close(a, b, 1 + float(np.max(np.abs(w[0]))) + float(np.max(np.abs(w[1]), initial=0)), tol):
                res.bad.append(f'{label}: {name} is {prog._fmt(a)}, expected {prog._fmt(b)}')
            if dt and str(f(xs[0]).dtype) == dt and str(a.dtype) != dt:
                res.bad.append(f'{label}: {name} has dtype {a.dtype}')

    for call in case['calls']:
        lap = op(case['op'])(f)
        label = f'{case["op"]} {call}'
        two = jnp.stack(xs)
        at = lambda o, k: tuple(np.asarray(a)[k] for a in o)
        try:
            if call == 'plain':
                check(label, lap(xs[0]), want[0])
            elif call == 'numpy':
                check(label, lap(np.asarray(xs[0])), want[0])
            elif call == 'twice':
                check(label, lap(xs[0]), want[0])
                check(label, lap(xs[1]), want[1])
                check(label, lap(xs[0]), want[0])
            elif call == 'jit':
                check(label, jax.jit(lap)(xs[0]), want[0])
            elif call in ('vmap', 'jitvmap', 'vmapjit'):
                g = dict(vmap=lambda: jax.vmap(lap), jitvmap=lambda: jax.jit(jax.vmap(lap)), vmapjit=lambda: jax.vmap(jax.jit(lap)))[call]()
                o = g(two)
                for k in (0, 1):
                    check(label, at(o, k), want[k])
            elif call == 'scan':
                o = jax.lax.scan(lambda h, x: (h, lap(x)), 0, two)[1]
                for k in (0, 1):
                    check(label, at(o, k), want[k])
            elif call == 'gradp':
                # derivative with respect to another parameter: the operator is linear in f
                o = jax.jvp(lambda p: op(case['op'])(lambda x: fp(x, p))(xs[0]), (jnp.asarray(2.0, dt),), (jnp.asarray(3.0, dt),))
                check(label, tuple(np.asarray(a) / 2 for a in o[0]), want[0])
                check(label + ' tangent', tuple(np.asarray(a) / 3 for a in o[1]), want[0])
        except Exception as e:
            if e.__class__.__name__ == 'CaseTimeout':
                raise
            res.runs += 1
            res.bad.append(f'{label}: raised {type(e).__name__}: {str(e)[:200]}')
        res.key.append([call, list(sh), case['op']])
    return res
