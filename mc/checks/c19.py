"""Automatic batching at any memory limit, and the memory estimate behind it."""
import contextlib
import io
import logging
import sys

import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
import prog
from core import Result
from folx import forward_laplacian
from folx.experimental.memory import compute_memory
from folx.experimental.vmap import auto_batched_vmap
from folx.vmap import batched_vmap
from jax import core
from prog import CTX, w

BOUNDS = dict(
    quick='21 functions with assignments of mapped axes x batch lengths 1..6 x 17 memory limits x 3 fractions and devices without statistics; histories of 7 calls of one function with changing lengths; estimates of 45 programs x 5 sizes',
    thorough='batch lengths 1..12 x 40 memory limits x 5 fractions',
)
CHUNK = 2

import c18

P, SEEN, A_ = c18.P, c18.SEEN, c18.make
EXECUTED = []


@c18.probe_p.def_impl
def _impl(x):
    EXECUTED.append(1)
    return x


SPECS = [s for i, s in enumerate(c18.SPECS) if i in (0, 2, 4, 5, 10, 11, 13, 15, 19, 21, 22, 23, 25, 28, 30, 36, 38, 42, 45)] + [
    ('(A(B,3),)', '0', 'lambda x:lax.scan(lambda h,a:(jnp.sin(h)*a,h.sum()),P(x),jnp.arange(3.))', '0'), ('(A(B,3),A(3,4))', '(0,None)', 'lambda x,W:jax.jit(lambda y:jnp.tanh(y@W))(P(x)).sum()', '0'),
    ('(A(B,2),)', '0', 'lambda x:(P(x),jnp.outer(x,jnp.ones(50)).sum())', '0'), ('(A(B,3),)', '0', 'lambda x:FL(P(x))', '0'),
]
# programs for the estimate; n is the size
EST = [
    'x*2', 'jnp.outer(x,x).sum()', 'jnp.sin(x)+1', 'x[:1]', 'jnp.concatenate([x,x,x])', '(x,x)', 'jnp.outer(x,x)@x', 'jax.jit(lambda y:jnp.outer(y,y).sum())(x)', 'lax.scan(lambda h,a:(h*a,h),x,jnp.ones(4))[0]', 'lax.scan(lambda h,a:(h*a,h),x,jnp.ones(4))[1]', 'lax.scan(lambda h,a:(jnp.outer(h,h).sum()*h,a),x,x)[0]',
    'x>1', '(x*1j)**2', 'x.astype(jnp.float32)*2', 'x.astype(jnp.bfloat16)', 'x.astype(jnp.int8)+jnp.int8(1)', '3.0', 'jnp.ones(7)*2', 'jnp.sort(x)', 'jnp.linalg.slogdet(jnp.outer(x,x)+jnp.eye(x.shape[0]))', 'jax.nn.softmax(x)', 'lax.fori_loop(0,3,lambda i,y:y*2,x)', 'lax.cond(x[0]>0,lambda y:y*2,lambda y:y,x)', 'jax.vmap(lambda y:y*x)(x)',
    'jax.grad(lambda y:jnp.sum(y**3))(x)', 'jax.hessian(lambda y:jnp.prod(y))(x)', 'jnp.zeros(3).at[0].set(x[0])', 'jax.checkpoint(jnp.sin)(x)', 'jax.jit(jax.jit(lambda y:y*x))(x)', '[x,dict(a=x+1,b=[x*2])]', 'jax.nn.silu(x)', 'jnp.einsum("i,j,k->ijk",x,x,x)[0]', 'lax.map(lambda a:a*x,x)', 'x', '(x*0).sum()+c(3)', 'jax.random.uniform(jax.random.PRNGKey(0),(3,))*x[0]',
    'lax.while_loop(lambda y:y.sum()<0,lambda y:y+1,x)', 'jax.nn.gelu(x)', 'jnp.unique(x,size=2)', 'FL(x)',
    'lax.scan(lambda h,a:(h,a*2),0.,x)[1]', 'lax.scan(lambda h,a:(h,jnp.outer(x,x)*a),1.5,jnp.ones(4))', 'jax.jit(lambda k,y:(k,y*k))(2.,x)', 'lax.scan(lambda h,a:(h,(2.,jnp.outer(a,x))),0,jnp.outer(x,x))[1]', 'lax.cond(True,lambda k,y:(k,y),lambda k,y:(k,y*2),3.,x)',
]


# One step of a chain; only its last result is used again
STEPS = ['jnp.sin(y)', 'y*x', 'y@W', 'y[::-1]', 'jnp.outer(y,x).sum(0)', 'jnp.sort(y)', 'y*y', 'jnp.cumsum(y)+1.', 'jnp.where(y>0,y,x)', 'y/jnp.sum(y)', 'lax.cond(True,jnp.sin,jnp.cos,y)',
         'jax.jit(lambda z:jnp.outer(z,z).sum(0))(y)', 'lax.scan(lambda h,a:(h*a,None),y,c(4))[0]', 'jax.nn.softmax(y)', 'jnp.concatenate([y[1:],y[:1]])']
WRAPS = ['G(x)', 'jax.jit(G)(x)', 'lax.scan(lambda h,_:(G(h),None),x,None,length=2)[0]', '(G(x),x)', 'jax.jit(jax.jit(G))(x)*2.']


def FL(x):
    o = forward_laplacian(lambda y: jnp.sin(y * y[::-1]), disable_jit=True)(x)
    return o.x, o.jacobian.dense_array, o.laplacian


def roots(tier):
    B = 6 if tier == 'quick' else 12
    for s in range(len(SPECS)):
        for b in range(1, B + 1):
            yield dict(kind='a', spec=s, B=b)
        yield dict(kind='h', spec=s, B=[2, 5, 1, 6, 3, 4, 2])
    for e in range(len(EST)):
        yield dict(kind='m', f=e)
    yield dict(kind='p')
    for step in STEPS:
        for wrap in WRAPS:
            yield dict(kind='c', step=step, wrap=wrap)


class Dev:
    def __init__(self, dev, limit):
        self._d, self._l = dev, limit

    def memory_stats(self):
        if self._l is None:
            return None
        return {'bytes_limit': self._l, 'bytes_in_use': 0}

    def __getattr__(self, k):
        return getattr(self._d, k)


@contextlib.contextmanager
def device(limit):
    orig = jax.devices
    jax.devices = lambda *a, **k: [Dev(d, limit) for d in orig(*a, **k)] if not a and not k else orig(*a, **k)
    try:
        yield
    finally:
        jax.devices = orig


def run(case, seed, tier):
    CTX['seed'] = seed
    # the estimate may report through the log; that is not the output of the process
    return dict(a=auto, h=history, m=estimate, p=printing, c=chain)[case['kind']](case, tier)


def auto(case, tier):
    args, ia, fn, oa = SPECS[case['spec']]
    ns = dict(P=P, jnp=jnp, dict=dict, lax=jax.lax, jax=jax, FL=FL)
    ia, oa, src, fn = eval(ia), eval(oa, {'dict': dict}), fn, eval(fn, ns)
    args = A_(args, case['B'])
    want = jax.vmap(fn, in_axes=ia, out_axes=oa)(*args)
    res = Result(key=[])
    # what one and two samples take, from which the cost of more is extrapolated
    one, two = (compute_memory(batched_vmap(fn, k, in_axes=ia, out_axes=oa), *args) for k in (1, 2))
    limits = [1, 10, 40, 80, 120, 200, 300, 400, 500, 600, 800, 1000, 1500, 2500, 5000, 20000, 10**12]
    if tier == 'thorough':
        limits = sorted({int(1.35**k) + k for k in range(38)} | {10**12, 2**60})
    fractions = [1.0, 0.5, 0.1] if tier == 'quick' else [1.0, 0.9, 0.5, 0.1, 0.001]
    limits = sorted({*limits, *range(one, one + 7 * max(two - one, 1), max(two - one, 1))})
    chosen = []
    for limit in limits + [None]:
        for fr in fractions if limit is not None and limits.index(limit) % 3 == 0 else [1.0]:
            label = f'limit {limit} x {fr}'
            fn = eval(src, ns)  # a new object, which no cache knows
            del SEEN[:]
            out = io.StringIO()
            try:
                with device(limit), contextlib.redirect_stdout(out):
                    got = auto_batched_vmap(fn, in_axes=ia, out_axes=oa, max_fraction=fr)(*args)
            except Exception as e:
                if e.__class__.__name__ == 'CaseTimeout':
                    raise
                res.bad.append(f'{label}: raised {type(e).__name__}: {str(e)[:200]}')
                continue
            res.runs += 1
            res.bad += c18.compare(got, want, label)
            if out.getvalue():
                res.bad.append(f'{label}: wrote to standard output')
            # the estimates look at batches of one and two; only the evaluation at larger ones
            if limit is not None and max([0, *SEEN]) > 2 and one + (max(SEEN) - 1) * (two - one) > limit * fr and two > one:
                res.bad.append(f'{label}: evaluates {max(SEEN)} samples at once, which exceeds the memory (one sample {one}, two {two})')
            if limit is not None:
                chosen.append((limit * fr, max([2, *SEEN])))
    chosen.sort()
    # the evaluated batch grows with the memory (the remainder may come last)
    final = [c for _, c in chosen]
    if any(a > b for a, b in zip(final, final[1:])):
        res.bad.append(f'the batch size does not shrink with the limit: {chosen}')
    if final and final[-1] < min(case['B'], 3) and case['B'] > 2:
        res.bad.append(f'without a relevant limit only {final[-1]} of {case["B"]} samples are evaluated at once')
    res.key = [case['spec'], case['B'], final]
    return res


def history(case, tier):
    """One function is called with several lengths: as a new function at each length."""
    src, ia, fn, oa = SPECS[case['spec']]
    ns = dict(P=P, jnp=jnp, dict=dict, lax=jax.lax, jax=jax, FL=FL)
    ia, oa = eval(ia), eval(oa, {'dict': dict})
    res = Result(key=[])
    for limit in (100, 300, 600, 2000, 10**12):
        with device(limit):
            f = eval(fn, ns)
            vm = auto_batched_vmap(f, in_axes=ia, out_axes=oa)
            for i, b in enumerate(case['B']):
                args = A_(src, b)
                label = f'limit {limit}, call {i} of {case["B"][: i + 1]}'
                want = jax.vmap(f, in_axes=ia, out_axes=oa)(*args)
                sizes = []
                for v in (vm, auto_batched_vmap(eval(fn, ns), in_axes=ia, out_axes=oa)):
                    del SEEN[:]
                    try:
                        got = v(*args)
                    except Exception as e:
                        if e.__class__.__name__ == 'CaseTimeout':
                            raise
                        res.bad.append(f'{label}: raised {type(e).__name__}: {str(e)[:200]}')
                        break
                    res.runs += 1
                    res.bad += c18.compare(got, want, label)
                    sizes.append(max([2, *SEEN]))
                if len(sizes) == 2 and sizes[0] > sizes[1]:
                    res.bad.append(f'{label}: evaluates {sizes[0]} samples at once, a new function {sizes[1]}')
                res.key.append([case['spec'], limit, i, sizes])
    return res


def nbytes(v):
    return int(np.prod(v.aval.shape, dtype=int)) * v.aval.dtype.itemsize


def lower_bound(jaxpr):
    """operands and results of the largest operation (results that are used)"""
    used = {v for e in jaxpr.eqns for v in e.invars if not isinstance(v, core.Literal)} | {v for v in jaxpr.outvars if not isinstance(v, core.Literal)}
    best = 0
    for e in jaxpr.eqns:
        ins = {v for v in e.invars if not isinstance(v, core.Literal)}
        outs = {v for v in e.outvars if v in used}
        best = max(best, sum(map(nbytes, ins)) + sum(map(nbytes, outs)))
        if e.primitive.name in ('pjit', 'scan'):
            best = max(best, lower_bound(e.params['jaxpr'].jaxpr))
    return best


def estimate(case, tier):
    src = EST[case['f']]
    co = compile(src, '<f>', 'eval')

    def f(x, s=1.0):
        # the probe also sees the data
        return eval(co, {**prog.NS, 'x': P(x) * s, 'FL': FL})

    res = Result(key=[])
    sizes = [1, 2, 3, 5, 8] if tier == 'quick' else [1, 2, 3, 4, 5, 6, 8, 12, 20]
    prev = 0
    for n in sizes:
        x = prog.inp((n,), 1)
        try:
            f(x)
        except Exception as e:
            continue
        handlers, stdout = list(logging.getLogger().handlers), sys.stdout
        del EXECUTED[:]
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                red = sys.stdout
                m1 = compute_memory(f, x)
                m2 = compute_memory(f, x)
                mk = compute_memory(f, x, s=2.0)
                ms = compute_memory(f, x, 2.0, static_argnums=1)
                ms2 = compute_memory(f, x, 2.0, static_argnums=(1,))
                kept = sys.stdout is red
        except Exception as e:
            if e.__class__.__name__ == 'CaseTimeout':
                raise
            res.bad.append(f'n={n}: raised {type(e).__name__}: {str(e)[:200]}')
            continue
        res.runs += 5
        if EXECUTED:
            res.bad.append(f'n={n}: the function was executed on data')
        if out.getvalue() or not kept or sys.stdout is not stdout or handlers != list(logging.getLogger().handlers):
            res.bad.append(f'n={n}: standard output or log handlers were disturbed')
        if m1 != m2 or ms != ms2:
            res.bad.append(f'n={n}: the estimate is not deterministic: {m1}, {m2}')
        if not isinstance(m1, int) or m1 <= 0:
            res.bad.append(f'n={n}: the estimate is {m1!r}')
        lb = lower_bound(jax.make_jaxpr(f)(x).jaxpr)
        if m1 < lb:
            res.bad.append(f'n={n}: the estimate {m1} is less than the {lb} bytes of its largest operation')
        if m1 < prev and case['f'] != EST.index('jnp.unique(x,size=2)'):
            res.bad.append(f'n={n}: the estimate shrinks from {prev} to {m1} for a larger input')
        if mk < m1 - 64 or abs(ms - m1) > 64:
            res.bad.append(f'n={n}: estimates with a keyword {mk} or a static argument {ms} differ from {m1}')
        prev = m1
        res.key.append([n, m1])
    # monotone in the number of samples
    prev = 0
    for B in (1, 2, 3, 5):
        x = jnp.stack([prog.inp((3,), k) for k in range(B)])
        try:
            m = compute_memory(lambda x: jax.vmap(f)(x), x)
        except Exception as e:
            if e.__class__.__name__ == 'CaseTimeout':
                raise
            try:
                jax.make_jaxpr(jax.vmap(f))(x)
            except Exception:
                break
            res.bad.append(f'B={B}: raised {type(e).__name__}: {str(e)[:200]}')
            break
        res.runs += 1
        if m < prev:
            res.bad.append(f'B={B}: the estimate shrinks from {prev} to {m} for more samples')
        prev = m
        res.key.append(['B', B, m])
    return res


def printing(case, tier):
    """The listing goes to standard output and only when asked for."""
    res = Result(key=['p'])
    x = prog.inp((3,), 1)
    for flag in (False, True):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            m = compute_memory(lambda x: jnp.outer(x, x).sum(), x, print_top_tensors=flag)
        res.runs += 1
        if bool(out.getvalue()) != flag:
            res.bad.append(f'print_top_tensors={flag}: printed {out.getvalue()[:50]!r}')
        if m != compute_memory(lambda x: jnp.outer(x, x).sum(), x):
            res.bad.append('the listing changes the estimate')
    return res


def chain(case, tier):
    """Intermediate results that are not used again do not count any more."""
    res = Result(key=[])
    for n in (3, 40):
        x = prog.inp((n,), 1)
        W = np.asarray(w(n, n))
        seen = []
        for k in range(1, 7 if tier == 'quick' else 16):

            def G(x0):
                y = x0
                for _ in range(k):
                    y = eval(case['step'], {**prog.NS, 'x': x0, 'y': y, 'W': W})
                return y

            seen.append(compute_memory(lambda x: eval(case['wrap'], {**prog.NS, 'G': G, 'x': x}), x))
            res.runs += 1
        res.key.append(str(seen))
        # the results of two steps may overlap
        if len(set(seen[3:])) > 1:
            res.bad.append(f'n={n}: the estimate grows with the length of a chain: {seen}')
    return res
