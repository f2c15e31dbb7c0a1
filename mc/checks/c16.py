"""Fault enumeration: failures of ahead-of-time evaluation at every point, traced index data,
failing user code at every position."""
import itertools
import logging
import sys

import jax
import jax.numpy as jnp
import jaxlib
import numpy as np
import prog
from core import Result
from folx import deregister_function, forward_laplacian, register_function, wrap_forward_laplacian
from folx.api import FunctionFlags
from jax import core
from jax._src import core as jcore
from jax.interpreters import ad, batching, mlir
from prog import CTX

BOUNDS = dict(
    quick='every single concrete kernel evaluation while tracing fails, for 22 programs, 2 kinds of failure; pairs of failures for 4 programs within the first 14; every entry and exit of compile-time evaluation and all pairs; user primitives that cannot be evaluated ahead of time x 8 contexts; 19 indexing operations x 6 ways of tracing the index; 9 kinds of exceptions x 14 positions of user code',
    thorough='3 thresholds, both modes, pairs of failures for all programs within the first 40 evaluations',
)
CHUNK = 2
Xla = jaxlib.xla_extension.XlaRuntimeError


class Custom(Exception):
    def __init__(self, a, b):
        super().__init__(a, b)


EXC = {
    'oom': lambda: Xla('RESOURCE_EXHAUSTED: Out of memory allocating 1 bytes.'), 'mem': lambda: MemoryError('x'), 'value': lambda: ValueError('injected'), 'key': lambda: KeyError('injected'), 'custom': lambda: Custom(1, 2), 'notimpl': lambda: NotImplementedError('injected'),
    'type': lambda: TypeError('injected'), 'kbd': lambda: KeyboardInterrupt('injected'), 'exit': lambda: SystemExit(3), 'attr': lambda: AttributeError('injected'), 'pct': lambda: RuntimeError('100% {x} %s'),
}


# --- user primitives ------------------------------------------------------------------
def make_primitive(name, impl, concrete_ok, jvp):
    """A primitive that compiles but, if not concrete_ok, cannot be evaluated eagerly."""
    p = core.Primitive(name)

    def run(x, **kw):
        if not concrete_ok:
            raise Xla('RESOURCE_EXHAUSTED: no memory ahead of time')
        return impl(x, **kw)

    p.def_impl(run)
    p.def_abstract_eval(lambda x, **kw: core.ShapedArray(jax.eval_shape(lambda z: impl(z, **kw), jax.ShapeDtypeStruct(x.shape, x.dtype)).shape, x.dtype))
    mlir.register_lowering(p, mlir.lower_fun(impl, multiple_results=False))
    ad.primitive_jvps[p] = lambda pr, ta, **kw: (p.bind(*pr, **kw), jvp(p, pr[0], ad.instantiate_zeros(ta[0]), **kw))

    def batch(a, d, **kw):
        return p.bind(jnp.moveaxis(a[0], d[0], 0), **{**kw, 'nb': kw.get('nb', 0) + 1}), 0

    batching.primitive_batchers[p] = batch
    return p


def _half(x, nb=0):
    return x[(slice(None),) * nb + (slice(0, 2),)]


def _sq(x, nb=0):
    return x * x


hard_p = make_primitive('mc_hard', _sq, False, lambda p, x, t, **kw: 2 * x * t)
cut_p = make_primitive('mc_cut', _half, False, lambda p, x, t, **kw: p.bind(t, **kw))


class Inject:
    """Fails the chosen concrete kernel evaluations (counted while active)."""

    def __init__(self, at, make):
        self.at, self.make, self.n, self.thrown = set(at), make, 0, []

    def __enter__(self):
        self.orig = jcore.EvalTrace.process_primitive
        inj = self

        def process_primitive(trace, primitive, *a, **kw):
            # the execution of the compiled program itself is no ahead-of-time evaluation
            if primitive.name != 'pjit' or inj.inside:
                k = inj.n
                inj.n += 1
                if k in inj.at:
                    e = inj.make()
                    inj.thrown.append(e)
                    raise e
            if inj.inside or primitive.name != 'pjit':
                inj.inside += 1
                try:
                    return inj.orig(trace, primitive, *a, **kw)
                finally:
                    inj.inside -= 1
            return inj.orig(trace, primitive, *a, **kw)

        self.inside = 0
        jcore.EvalTrace.process_primitive = process_primitive
        return self

    def __exit__(self, *a):
        jcore.EvalTrace.process_primitive = self.orig


class InjectCtx:
    """Fails entering (2k) or leaving (2k+1) the k-th compile-time evaluation."""

    def __init__(self, at, make):
        self.at, self.make, self.n, self.thrown = set(at), make, 0, []

    def __enter__(self):
        import contextlib

        self.orig = jax.ensure_compile_time_eval
        inj = self

        @contextlib.contextmanager
        def ensure():
            k = inj.n
            inj.n += 2
            if k in inj.at:
                inj.thrown.append(inj.make())
                raise inj.thrown[-1]
            with inj.orig():
                yield
                if k + 1 in inj.at:
                    inj.thrown.append(inj.make())
                    raise inj.thrown[-1]

        jax.ensure_compile_time_eval = ensure
        return self

    def __exit__(self, *a):
        jax.ensure_compile_time_eval = self.orig


class InjectUnique:
    """Fails the k-th search for unique indices."""

    def __init__(self, at, make):
        self.at, self.make, self.n, self.thrown = set(at), make, 0, []

    def __enter__(self):
        self.orig = jnp.unique
        inj = self

        def unique(*a, **kw):
            k = inj.n
            inj.n += 1
            if k in inj.at:
                inj.thrown.append(inj.make())
                raise inj.thrown[-1]
            return inj.orig(*a, **kw)

        jnp.unique = unique
        return self

    def __exit__(self, *a):
        jnp.unique = self.orig


PROGS = [
    'x*jnp.sin(c(3))', 'x[1:]*2', 'x[jnp.array([2,0])]', 'x[:2]*x[1:]', 'jnp.outer(x,x).sum(0)', '(x*x).sum()', 'jnp.concatenate([x,c(2)])[1:]', 'jnp.where(c(3)>1,x,x[::-1])', 'jnp.tanh(w(2,3)@x)', 'jnp.zeros(4).at[jnp.array([1,3,0])].set(x)', 'jnp.zeros(2).at[jnp.array([1,0,1])].add(x)',
    'jnp.outer(x,x)@x', 'jnp.prod(x)', 'jnp.max(x*x[::-1])', 'x[lax.convert_element_type(c(2)*2,int)]*c(2)', 'jax.nn.softmax(x)', 'lax.dynamic_slice(x*x,(jnp.argmax(c(3))//2,),(2,))', 'jnp.pad(x,1)**2', 'jnp.linalg.norm(x[:,None]-x[None]+jnp.eye(3),axis=-1)', 'lax.scan(lambda h,a:(h*a,h[0]),x*x,jnp.sort(c(2)))', 'jnp.diag(x)*x', 'x.reshape(3,1)*jnp.cumsum(c(2))',
]
CTXS = ['plain', 'jit', 'scan', 'vmap', 'nested', 'kwargs', 'twice', 'mixed']
# indexing operations with an index that is only known while tracing; i an integer scalar, I an integer vector, b a boolean vector
IDX = [
    'x[i]', 'x[I]', 'lax.dynamic_slice(x,(i,),(2,))', 'lax.dynamic_index_in_dim(x,i)', 'jnp.take(x,I)', 'jnp.where(b,x,x[::-1])', 'jnp.where(b,x,0.)', 'lax.select_n(b,x,x*x)', 'jnp.zeros(4).at[I].set(x)', 'jnp.zeros(4).at[i:i+1].add(x[:1])' if False else 'jnp.zeros(4).at[I].add(x)', 'x.at[i].set(2.)', 'x.at[i].set(x[0]*x[1])',
    'lax.dynamic_update_slice(x,x[:1]*x[1:2],(i,))', 'jnp.take_along_axis(jnp.outer(x,x),I[None],1)', 'jnp.outer(x,x)[i]', 'jnp.outer(x,x)[:,I]', 'jnp.roll(x,1)*x[i]', 'jnp.sort(x)[i]', 'jax.ops.segment_sum(x,I,4)', 'x*(jnp.arange(3)==i)',
]
TRACE = ['const', 'jit', 'vmap', 'scan', 'innerjit', 'innerscan']
POS = ['trace0', 'traceN', 'rule0', 'rule1', 'ruleN', 'ruleJit', 'ruleJit2', 'ruleScan', 'ruleVmap', 'named', 'namedNested', 'jvp', 'construle', 'cjvp']


def roots(tier):
    full = tier == 'thorough'
    for j, p in enumerate(PROGS):
        for th, mode in (((100, 'j'), (2, 'j'), (100, 'e'), (0, 'j')) if full else ((100, 'j'),)):
            for inj in ('kernel', 'ctx', 'unique'):
                for e in ('oom', 'value'):
                    parts = 4 if inj == 'kernel' else 1
                    for part in range(parts):
                        yield dict(kind='k', inj=inj, f=p, th=th, mode=mode, exc=e, part=[part, parts], pairs=0)
        if full or j in (1, 5, 8, 10):
            yield dict(kind='k', inj='kernel', f=p, th=100, mode='j', exc='oom', part=[0, 1], pairs=40 if full else 14)
        yield dict(kind='k', inj='ctx', f=p, th=100, mode='j', exc='oom', part=[0, 1], pairs=40 if full else 14)
    for c in CTXS:
        for which in ('hard', 'cut', 'cutconst'):
            for tm in ('100j', '2j', '1j', '0j'):
                yield dict(kind='n', ctx=c, which=which, tm=tm)
    for i, e in enumerate(IDX):
        for t in TRACE:
            yield dict(kind='t', f=e, trace=t, tm=['0e', '1j', '2e', '100e', '100j'] if full else ['100e', '2j'] if t in TRACE[:3] else ['100j', '2e'])
    for p in POS:
        for i, e in enumerate(EXC):
            yield dict(kind='u', pos=p, exc=e, tm=['0e', '0j', '100e', '100j'])


def snapshot():
    root = logging.getLogger()
    import folx.wrapped_functions as wf

    return (
        list(map(id, root.handlers)), [id(h.formatter) for h in root.handlers], root.level, logging.root.manager.disable, id(sys.stdout), id(sys.stderr), jax.config.jax_enable_x64, jax.config.jax_default_device, jax.config.jax_disable_jit,
        sorted(str(k) for k in wf._LAPLACE_FN_REGISTRY) if hasattr(wf, '_LAPLACE_FN_REGISTRY') else None,
    )


def build(src):
    co = compile(src, '<f>', 'eval')
    return lambda x, **kw: eval(co, {**prog.NS, 'x': x, **kw})


def run(case, seed, tier):
    CTX['seed'] = seed
    h = logging.NullHandler()
    root = logging.getLogger()
    old = root.handlers
    root.handlers = [h]
    before = snapshot()
    try:
        res = dict(k=faults, n=natural, t=traced, u=user)[case['kind']](case)
        if snapshot() != before:
            res.bad.append('the state of the process changed (log handlers, output, configuration or registry)')
    finally:
        root.handlers = old
    return res


def raised_by(e, thrown):
    return any(e is t for t in thrown)


def faults(case):
    f = build(case['f'])
    x = prog.inp((3,), 1)
    ref = prog.reference(f, (x,))
    Inj = dict(kernel=Inject, ctx=InjectCtx, unique=InjectUnique)[case['inj']]
    make = EXC[case['exc']]
    th, mode = case['th'], case['mode']
    forward_laplacian(f, th, disable_jit=mode == 'e')(x)  # constants of the harness are computed
    with Inj((), make) as i0:
        out = forward_laplacian(f, th, disable_jit=mode == 'e')(x)
    res = Result(key=[], bad=prog.compare(out, ref, 3), runs=1)
    N = i0.n
    if case['pairs']:
        sets = list(itertools.combinations(range(min(N, case['pairs'])), 2))
    else:
        sets = [(k,) for k in range(case['part'][0], N, case['part'][1])]
    before = snapshot()
    outcome = []
    for at in sets:
        with Inj(at, make) as i1:
            try:
                out = forward_laplacian(f, th, disable_jit=mode == 'e')(x)
            except BaseException as e:
                if e.__class__.__name__ == 'CaseTimeout':
                    raise
                out = e
        res.runs += 1
        if isinstance(out, BaseException):
            if not raised_by(out, i1.thrown):
                res.bad.append(f'failure at {at}: raised {type(out).__name__}: {str(out)[:120]} instead of the injected error')
            outcome.append('raised')
        else:
            res.bad += [f'failure at {at}: {b}' for b in prog.compare(out, ref, 3)]
            outcome.append('exact' if i1.thrown else 'no')
        if snapshot() != before:
            res.bad.append(f'failure at {at}: the state of the process changed')
        if case['inj'] == 'unique' and case['exc'] == 'oom' and isinstance(out, BaseException) and len(at) == 1 and find_unique_falls_back(i1.thrown[0]):
            res.bad.append(f'failure at {at}: out of memory while searching unique indices was not handled')
        if len(res.bad) > 4:
            break
    out = forward_laplacian(f, th, disable_jit=mode == 'e')(x)
    res.bad += [f'afterwards: {b}' for b in prog.compare(out, ref, 3)]
    res.runs += 1
    res.key = [case['inj'], case['f'], th, sorted(set(outcome)), N]
    return res


def find_unique_falls_back(e):
    """Out of memory inside the search of the dependencies of a Hessian is documented to be retried on the CPU."""
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_name == 'find_out_idx':
            return True
        tb = tb.tb_next
    return False


def natural(case):
    """Operations that can be compiled but not evaluated ahead of time must not matter."""
    which, ctx = case['which'], case['ctx']
    if which == 'hard':
        op, k, ref_op = hard_p.bind, prog.c(3), _sq
    else:
        op, k, ref_op = cut_p.bind, prog.c(3), _half
    const = which in ('hard', 'cutconst')

    def mk(op):
        def core_(x, k):
            if const:
                y = op(k)
                return jnp.sin(x[: y.shape[0]]) * y
            return op(jnp.sin(x) * k) * k[:2]

        def f(x):
            if ctx == 'plain':
                return core_(x, k)
            if ctx == 'jit':
                return jax.jit(core_)(x, k)
            if ctx == 'scan':
                return jax.lax.scan(lambda h, a: (jnp.sin(h), core_(h, k * a).sum()), jnp.cumsum(x @ jnp.ones((3, 3))), prog.c(2))
            if ctx == 'vmap':
                return jax.vmap(core_, (None, 0))(x, jnp.stack([k, k * 2]))
            if ctx == 'nested':
                return jax.jit(lambda x: jax.jit(core_)(x, k) * 2)(x) + 1
            if ctx == 'kwargs':
                return (core_(x, k), op(k) if const else k)
            if ctx == 'twice':
                return core_(core_(jnp.concatenate([x, x]), jnp.concatenate([k, k]))[jnp.array([0, 1, 1])], k)
            if ctx == 'mixed':
                return jnp.outer(core_(x, k), x) + core_(x[::-1], k)[:, None]

        return f

    x = prog.inp((3,), 1)
    ref = prog.reference(mk(ref_op), (x,))
    key = None
    try:
        # the indexing annotation makes folx evaluate the operation on index arrays
        register_function(cut_p, wrap_forward_laplacian(cut_p.bind, flags=FunctionFlags.INDEXING, name='mc_cut'))
        ((th, mode),) = prog.parse_tm([case['tm']])
        try:
            import npx

            with npx.stock():  # compiled execution by XLA: eager evaluation would fail
                out = jax.jit(lambda x: strip(forward_laplacian(mk(op), th, disable_jit=True)(x)))(x)
        except Exception as e:
            if e.__class__.__name__ == 'CaseTimeout':
                raise
            return Result(bad=[f'raised {type(e).__name__}: {str(e)[:200]}'], runs=1)
    finally:
        deregister_function(cut_p)
    bad = prog.compare(out, ref, 3, sparse_monitor=False)
    return Result(key=[ctx, which, th], bad=bad, runs=1)


def strip(out):
    """dense Jacobians, so that the result may leave the compiled function"""
    import jax.tree_util as jtu

    def one(l):
        if not prog.is_lpl(l):
            return l
        J = l.jacobian.dense_array
        return l._replace(jacobian=type(l.jacobian).from_dense(jnp.concatenate([J, jnp.zeros((3 - J.shape[0], *J.shape[1:]))])))

    return jtu.tree_map(one, out, is_leaf=prog.is_lpl)


def traced(case):
    g = build(case['f'])
    x = prog.inp((3,), 1)
    data = [dict(i=jnp.asarray(i), I=jnp.asarray(I), b=jnp.asarray(b)) for i, I, b in ((1, [2, 0, 1], [True, False, True]), (0, [1, 1, 0], [False, False, True]))]
    res = Result(key=[])
    t = case['trace']
    for th, mode in prog.parse_tm(case['tm']):
        def fl(f):
            F = forward_laplacian(f, th, disable_jit=mode == 'e')
            return lambda x, **kw: strip2(F(x, **kw))

        try:
            if t == 'const':
                outs = [fl(lambda x, d=d: g(x, **d))(x) for d in data]
            elif t == 'jit':
                outs = [jax.jit(lambda x, d: fl(g)(x, **d))(x, d) for d in data]
            elif t == 'vmap':
                both = jax.tree_util.tree_map(lambda *a: jnp.stack(a), *data)
                o = jax.vmap(lambda d: fl(lambda x: g(x, **d))(x))(both)
                outs = [jax.tree_util.tree_map(lambda a: a[k], o) for k in range(2)]
            elif t == 'scan':
                both = jax.tree_util.tree_map(lambda *a: jnp.stack(a), *data)
                o = jax.lax.scan(lambda h, d: (h, fl(lambda x: g(x, **d))(x)), 0, both)[1]
                outs = [jax.tree_util.tree_map(lambda a: a[k], o) for k in range(2)]
            elif t == 'innerjit':
                outs = [fl(lambda x, d=d: jax.jit(lambda x, d: g(x, **d))(x, d))(x) for d in data]
            elif t == 'innerscan':
                both = jax.tree_util.tree_map(lambda *a: jnp.stack(a), *data)

                def f(x):
                    return jax.lax.scan(lambda h, d: (h, g(h, **d)), x, both)[1]

                o = fl(f)(x)
                outs = [(o[0][k], o[1][:, k], o[2][k]) for k in range(2)]
        except Exception as e:
            if e.__class__.__name__ == 'CaseTimeout':
                raise
            res.bad.append(f'th={th} mode={mode}: raised {type(e).__name__}: {str(e)[:200]}')
            continue
        for k, (d, o) in enumerate(zip(data, outs)):
            ref = prog.reference(lambda x: g(x, **d), (x,))
            y, J, L = [np.asarray(r[0]) for r in ref]
            res.runs += 1
            for name, a, b in zip(('value', 'jacobian', 'laplacian'), o, (y, np.moveaxis(J, -1, 0), L)):
                a = np.asarray(a)
                if a.shape != b.shape or not prog.close(a, b, 1 + np.max(np.abs(b), initial=0), 1e-7):
                    res.bad.append(f'th={th} mode={mode} index set {k}: {name} wrong')
        res.key.append([th, mode, t, list(y.shape)])
    return res


def strip2(l):
    """(value, dense jacobian, laplacian) of a single output; the stacked loop dimension of scans comes first"""
    idx = l.jacobian.x0_idx
    if isinstance(idx, jax.core.Tracer) or not isinstance(idx, (np.ndarray, type(None))):
        import c14

        J = c14.scatter(l.jacobian.data, idx, 3)
    else:
        J = l.jacobian.dense_array
        J = jnp.concatenate([J, jnp.zeros((3 - J.shape[0], *J.shape[1:]))])
    return l.x, J, l.laplacian


def user(case):
    """The very exception of user code reaches the caller and nothing is left behind."""
    make, pos = EXC[case['exc']], case['pos']
    x = prog.inp((3,), 1)
    armed = [False]
    thrown = []

    def boom():
        if armed[0]:
            thrown.append(make())
            raise thrown[-1]

    base = wrap_forward_laplacian(jax.lax.erf, in_axes=())
    calls = [0]

    def failing(at):
        def new(args, kwargs, sparsity_threshold):
            calls[0] += 1
            if calls[0] > at:
                boom()
            return base(args, kwargs, sparsity_threshold=sparsity_threshold)

        return new

    erf = jax.lax.erf
    keys = []

    def reg(key, fn):
        register_function(key, fn)
        keys.append(key)

    bp = core.Primitive('mc_boom')

    def bimpl(z):
        boom()
        return jnp.sin(z)

    bp.def_impl(bimpl)
    bp.def_abstract_eval(lambda z: core.ShapedArray(z.shape, z.dtype))
    mlir.register_lowering(bp, mlir.lower_fun(bimpl, multiple_results=False))

    def bjvp(pr, ta):
        boom()
        return bp.bind(*pr), jnp.cos(pr[0]) * ad.instantiate_zeros(ta[0])

    ad.primitive_jvps[bp] = bjvp
    batching.primitive_batchers[bp] = lambda a, d: (bp.bind(*a), d[0])

    @jax.jit
    def mc_named(z):
        return jnp.sin(z) * z

    @jax.custom_jvp
    def cj(z):
        return jnp.sin(z)

    @cj.defjvp
    def _(pr, ta):
        boom()
        return cj(*pr), jnp.cos(pr[0]) * ta[0]

    f = {
        'trace0': lambda x: (boom(), jnp.sin(x))[1], 'traceN': lambda x: (jnp.sin(x) * jax.jit(lambda z: (boom(), z * z)[1])(x)), 'rule0': lambda x: erf(x) * x, 'rule1': lambda x: erf(erf(x) * x), 'ruleN': lambda x: jnp.sum(jnp.sin(erf(x[:2] * x[1:])) * x[1:]),
        'ruleJit': lambda x: jax.jit(lambda z: erf(z) * 2)(x) * x, 'ruleJit2': lambda x: jax.jit(lambda z: jax.jit(lambda u: jnp.sin(u) * erf(u))(z) + z)(x * x), 'ruleScan': lambda x: jax.lax.scan(lambda h, a: (erf(h) * a, h), x * x, jnp.ones(2))[0], 'ruleVmap': lambda x: jax.vmap(lambda z: erf(z) * x)(x),
        'named': lambda x: mc_named(x) * 2, 'namedNested': lambda x: jax.jit(lambda z: mc_named(z * z))(x), 'jvp': lambda x: bp.bind(x * x) + x, 'construle': lambda x: bp.bind(prog.c(3)) * x, 'cjvp': lambda x: cj(x) * x,
    }[pos]
    res = Result(key=[])
    try:
        if pos.startswith('rule'):
            reg(jax.lax.erf_p, failing(1 if pos == 'rule1' else 0))
        if pos.startswith('named'):
            nb = wrap_forward_laplacian(lambda z: jnp.sin(z) * z, in_axes=())

            def nr(args, kwargs, sparsity_threshold):
                boom()
                return nb(args, kwargs, sparsity_threshold=sparsity_threshold)

            reg('mc_named', nr)
        ref = prog.reference(f, (x,)) if pos not in ('jvp', 'construle') else prog.reference((lambda x: jnp.sin(x * x) + x) if pos == 'jvp' else (lambda x: jnp.sin(prog.c(3)) * x), (x,))
        before = snapshot()
        for th, mode in prog.parse_tm(case['tm']):
            fl = forward_laplacian(f, th, disable_jit=mode == 'e')
            armed[0], calls[0] = True, 0
            del thrown[:]
            try:
                fl(x)
                exc = None
            except BaseException as e:
                if e.__class__.__name__ == 'CaseTimeout':
                    raise
                exc = e
            res.runs += 1
            if thrown and exc is None and not (pos == 'construle' and mode == 'j'):
                res.bad.append(f'th={th} mode={mode}: the error was swallowed')
            if not thrown and not (pos == 'construle' and mode == 'j'):
                res.bad.append(f'th={th} mode={mode}: the user code was not called')
            if exc is not None and not any(exc is t for t in thrown):
                # runtime callbacks are translated by the runtime itself
                res.bad.append(f'th={th} mode={mode}: raised {type(exc).__name__}: {str(exc)[:120]} instead of the error of the user code')
            if snapshot() != before:
                res.bad.append(f'th={th} mode={mode}: the state of the process changed')
            armed[0] = False
            out = fl(x)  # the same object works again
            res.bad += [f'th={th} mode={mode} afterwards: {b}' for b in prog.compare(out, ref, 3)]
            res.runs += 1
            res.key.append([pos, th, mode, exc is None])
    finally:
        for k in keys:
            deregister_function(k)
    return res
