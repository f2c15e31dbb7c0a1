"""Calling convention: argument structures x result structures x keyword styles x thresholds."""
import functools

import jax
import jax.flatten_util as jfu
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
import prog
from core import Result
from folx import forward_laplacian
from prog import CTX, parse_tm

BOUNDS = dict(
    quick='16 argument structures x 26 result structures x thresholds, 12 keyword styles x 6 argument structures, 10 kinds of callables; eager and compiled',
    thorough='as quick with the full product of arguments, results and keyword styles at thresholds 0, 1, 2, 3, 100',
)
CHUNK = 8

ARGS = ['A(3)', 'A()', 'A(2),A(3)', 'A(),A()', 'A(2,2),A(),A(1)', '(A(2),A(1))', '[A(2),[A(1),A()]]', 'dict(b=A(2),a=A(3))', 'dict(z=[A(1),A(2)],y=(A(),)),A(2)', '((A(1),(A(2),)),A(1)),A()',
        'N(3)', 'N(2),A(2)', 'dict(),A(2)', 'A(2),(),A(1)', 'NT(A(2),A(1))', 'None,A(3)', 'A(1,1,2),A(2,1)', 'dict(a=dict(b=dict(c=A(2))))']
# y: a dependent vector, l: list of argument leaves, F: flat argument vector
OUTS = [
    'F.sum()', 'y', '(y,)', '[y]', 'dict(b=y,a=y**2)', '(y,(y[0],[y*2.,dict(q=y.sum())]))', 'l[0]', '(l[-1],l[0])', '(y,y,y)', '(c(2),y)', 'c(3)', '(y,np.ones(2),3.)', '(y,None)', '(None,[y,()])', '(1,y)', '(y,y>0.9)', '(y,jnp.arange(3),y.shape[0])',
    'NT(y,y[0])', '(l[0],l[0],y)', 'args', 'dict(a=args,b=y)', '(y.astype(int),y)', '[F[0],F]', '(jnp.sin(y),jnp.sin(y).sum(),jnp.cos(y))', '(F[0]*0.,y)', '()',
]
KW = [
    ('', ''), ('s=2.', 'y*s'), ('s=c(2)', 'y[:1]*s'), ('s=2', 'y**s'), ('s=dict(p=c(2),q=[1.5])', 'y[:1]*s["p"]*s["q"][0]'), ('s=None', 'y'), ('s=np.ones(2)', 'y.sum()*s'), ('s=c(2),t=c(1)', 'y*t+s.sum()'), ('s=jnp.arange(2)', 'y[s%1]*1.'), ('s=True', 'jnp.where(s,y,0.)'),
    ('s=(c(1),2)', 'y*s[0]+s[1]'), ('s=c()', '(y*s,s)'),
]
# keyword values that only make sense without compilation of the call itself
KWSTATIC = [('s="sin"', 'getattr(jnp,s)(y)'), ('s=jnp.tanh', 's(y)'), ('s=3', 'jnp.tile(y,s)'), ('s=(1,2)', 'y[:1].reshape((1,)*len(s))')]
CALLABLES = ['def', 'lambda', 'partial', 'partialkw', 'method', 'callable', 'jit', 'default', 'kwonly', 'classmethod', 'vararg', 'nested', 'wraps']


import collections

NT = collections.namedtuple('NT', 'p q')


def mk(expr):
    k = [0]

    def A(*sh):
        k[0] += 1
        return prog.inp(sh, k[0])

    def N(*sh):
        return np.asarray(A(*sh))

    return eval(f'({expr},)', {'A': A, 'dict': dict, 'NT': NT, 'N': N})


def roots(tier):
    rot = [['0e', '2j'], ['0j', '100e'], ['1e', '100j']]
    full = ['0e', '0j', '1e', '2j', '3e', '100e', '100j']
    i = 0
    for a in ARGS:
        for o in OUTS:
            i += 1
            yield dict(kind='s', args=a, out=o, kw=0, tm=full if tier == 'thorough' else rot[i % 3])
    for a in ARGS if tier == 'thorough' else ARGS[:8]:
        for k in range(1, len(KW)):
            for o in (None,) if tier == 'quick' else (None, 'wrap'):
                i += 1
                yield dict(kind='s', args=a, out=o or KW[k][1], kw=k, tm=full if tier == 'thorough' else rot[i % 3])
        for k in range(len(KWSTATIC)):
            yield dict(kind='s', args=a, out=KWSTATIC[k][1], kw=-1 - k, tm=['0e', '1e', '100e'])
    for cl in CALLABLES:
        for a in ('A(3)', 'A(2),A(2)', 'dict(b=A(2),a=A(3))'):
            yield dict(kind='c', args=a, callable=cl, tm=full)


def body(out):
    co = compile(out, '<out>', 'eval')

    def f(*args, **kw):
        l = jtu.tree_leaves(args)
        F = jfu.ravel_pytree(args)[0]
        y = jnp.sin(F[: max(1, min(3, F.shape[0]))]) * F.sum() if F.shape[0] else jnp.zeros(1)
        return eval(co, {**prog.NS, 'F': F, 'y': y, 'l': l, 'args': args, 'NT': NT, 'dict': dict, **kw})

    return f


def make_callable(kind):
    base = body('(y,F.sum())')

    def g(*a, **k):
        y, s = base(*a)
        return y * k.get('scale', 1.0), s + k.get('shift', 0.0)

    if kind == 'def':
        return g, {}
    if kind == 'lambda':
        return (lambda *a: g(*a)), {}
    if kind == 'partial':
        return functools.partial(lambda c_, *a: (g(*a)[0] * c_, g(*a)[1]), prog.c(1)), {}
    if kind == 'partialkw':
        return functools.partial(g, scale=2.5), dict(shift=1.5)
    if kind == 'jit':
        return jax.jit(g), dict(scale=1.5)
    if kind == 'default':
        def h(*a, scale=3.0, shift=0.25):
            return g(*a, scale=scale, shift=shift)
        return h, dict(shift=2.0)
    if kind == 'kwonly':
        def h2(*a, scale):
            return g(*a, scale=scale)
        return h2, dict(scale=prog.c(1))
    if kind == 'vararg':
        return (lambda *a, **k: g(*a, **k)), dict(scale=0.5, shift=-1.0)

    class C:
        def __init__(self):
            self.k = prog.c(1)

        def m(self, *a, **kw):
            y, s = g(*a, **kw)
            return y * self.k, s

        __call__ = m

        @classmethod
        def cm(cls, *a):
            return g(*a)

    o = C()
    if kind == 'method':
        return o.m, dict(scale=2.0)
    if kind == 'callable':
        return o, {}
    if kind == 'classmethod':
        return C.cm, {}
    if kind == 'nested':
        def outer(*a):
            def inner(z):
                return g(*z)
            return inner(a)
        return outer, {}
    if kind == 'wraps':
        @functools.wraps(g)
        def w(*a, **k):
            return g(*a, **k)
        return w, dict(shift=0.5)
    raise ValueError(kind)


def run(case, seed, tier):
    CTX['seed'] = seed
    args = mk(case['args'])
    if case['kind'] == 'c':
        f, kw = make_callable(case['callable'])
    else:
        f = body(case['out'])
        spec = KW[case['kw']][0] if case['kw'] >= 0 else KWSTATIC[-1 - case['kw']][0]
        kw = eval(f'dict({spec})', {**prog.NS, 'dict': dict})
    try:
        want = f(*args, **kw)
        ref = prog.reference(lambda *a: f(*a, **kw), args)
    except Exception as e:
        return Result(skip=f'reference rejects: {type(e).__name__}: {str(e)[:60]}')
    n = prog.total_n(args)
    before = [np.array(x) for x in jtu.tree_leaves(args)]
    res = Result(key=[])
    struct = jtu.tree_structure(want)
    for th, mode in parse_tm(case['tm']):
        try:
            out = forward_laplacian(f, th, disable_jit=mode == 'e')(*args, **kw)
        except Exception as e:
            if e.__class__.__name__ == 'CaseTimeout':
                raise
            res.runs += 1
            res.bad.append(f'th={th} mode={mode}: raised {type(e).__name__}: {str(e)[:160]}')
            continue
        res.runs += 1
        s = jtu.tree_structure(out, is_leaf=prog.is_lpl)
        if s != struct:
            res.bad.append(f'th={th} mode={mode}: result structure {s} != {struct}')
            continue
        res.bad += [f'th={th} mode={mode}: {b}' for b in prog.compare(out, ref, n)]
        res.key.append([str(struct), [prog.state_of(l) for l in prog.lleaves(out)]])
    for a, b in zip(before, jtu.tree_leaves(args)):
        if not np.array_equal(a, np.asarray(b)):
            res.bad.append('an argument was modified')
    return res
