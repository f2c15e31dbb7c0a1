"""Batched vectorization against plain vectorization."""
import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
import prog
from core import Result
from folx import batched_vmap, forward_laplacian
from jax import core
from jax.interpreters import ad, batching, mlir
from prog import CTX

BOUNDS = dict(
    quick='batch lengths 1..10 x maximum batch sizes 1..11 x 63 assignments of mapped axes, argument and result structures; histories of 9 calls of one vectorized function with changing lengths; 9 contexts (compiled, differentiated, nested, vectorized, in a loop, with forward Laplacians) x all lengths and sizes up to 6',
    thorough='batch lengths 1..13 x sizes 1..14, contexts for all lengths and sizes up to 9',
)
CHUNK = 8

probe_p = core.Primitive('mc_probe')
probe_p.def_impl(lambda x: x)
probe_p.def_abstract_eval(lambda x: core.ShapedArray(x.shape, x.dtype))
mlir.register_lowering(probe_p, mlir.lower_fun(lambda x: x, multiple_results=False))
ad.primitive_jvps[probe_p] = lambda p, t: (probe_p.bind(*p), t[0])
SEEN = []


def _probe_batch(a, d):
    SEEN.append(a[0].shape[d[0]])
    return probe_p.bind(a[0]), d[0]


batching.primitive_batchers[probe_p] = _probe_batch
P = lambda tree: jtu.tree_map(lambda x: probe_p.bind(jnp.asarray(x)), tree)

# (arguments with batch length B, in_axes, function of the arguments, out_axes); A(*shape) generic array
SPECS = [
    ('(A(B),)', '0', 'lambda x:P(x)*2', '0'), ('(A(B,3),)', '0', 'lambda x:P(x)[::-1]', '0'), ('(A(3,B),)', '1', 'lambda x:P(x)[::-1]', '0'), ('(A(3,B),)', '-1', 'lambda x:P(x)', '0'), ('(A(B,3),)', '0', 'lambda x:P(x)', '1'), ('(A(B,3),)', '0', 'lambda x:P(x)', '-1'),
    ('(A(3,B,2),)', '1', 'lambda x:P(x)', '2'), ('(A(3,B,2),)', '(1,)', 'lambda x:P(x)', '1'), ('(A(3,B,2),)', '[1]', 'lambda x:P(x)*1.5', '-2'), ('(A(B),A(B))', '0', 'lambda x,y:P(x)*y', '0'), ('(A(B),A(B))', '(0,0)', 'lambda x,y:P(x)-y', '0'), ('(A(B),A(3))', '(0,None)', 'lambda x,y:P(x)*y', '0'),
    ('(A(3),A(B))', '(None,0)', 'lambda x,y:x-P(y)', '0'), ('(A(3),A(3,B))', '(None,1)', 'lambda x,y:x-P(y)', '1'), ('(A(B,2),A(2,B))', '(0,1)', 'lambda x,y:(P(x)@y,x,y)', '0'), ('(A(B,2),A(2,B))', '(0,1)', 'lambda x,y:(P(x)@y,x,y)', '(0,1,0)'), ('(A(B,2),A(2,B))', '[0,-1]', 'lambda x,y:[P(x),y]', '[1,0]'),
    ('((A(B),A(B,2)),)', '0', 'lambda t:P(t[0])+t[1]', '0'), ('((A(B),A(B,2)),)', '((0,0),)', 'lambda t:P(t[0])+t[1]', '0'), ('((A(B),A(2)),)', '((0,None),)', 'lambda t:P(t[0])+t[1]', '0'), ('((A(2),A(2,B)),)', '((None,1),)', 'lambda t:(t[0],P(t[1]))', '0'), ('((A(2),A(2,B)),A(B))', '((None,1),0)', 'lambda t,u:(t[0]+P(t[1]),u)', '(1,0)'),
    ('(dict(a=A(B),b=A(2,B)),)', '(dict(a=0,b=1),)', 'lambda d:dict(p=P(d["a"])*d["b"],q=d["a"])', '0'), ('(dict(a=A(B),b=A(2,B)),)', '(dict(a=0,b=1),)', 'lambda d:dict(p=P(d["a"])*d["b"],q=d["a"])', 'dict(p=1,q=0)'), ('(dict(a=A(B),b=A(2)),A(3))', '(dict(a=0,b=None),None)', 'lambda d,k:(P(d["a"])*d["b"],k)', '0'),
    ('(A(B),dict(w=A(2),v=[A(1),A()]))', '(0,None)', 'lambda x,p:(P(x)*p["w"],x+p["v"][0]+p["v"][1])', '0'), ('([A(B),[A(B,2),A(B,1)]],)', '0', 'lambda l:(P(l[0])+l[1][0],l[1])', '0'), ('([A(B),[A(B,2),A(B,1)]],)', '0', 'lambda l:(P(l[0])+l[1][0],l[1])', '(1,0)'), ('([A(B),[A(2,B),A(1,B)]],)', '([0,1],)', 'lambda l:(P(l[0])+l[1][0],l[1])', '(0,[1,1])'),
    ('(A(B),)', '0', 'lambda x:(P(x),(x*2,[x*3]))', '0'), ('(A(B,2),)', '0', 'lambda x:(P(x),(x*2,[x*3]))', '(0,(1,[0]))'), ('(A(B,2),)', '0', 'lambda x:(P(x),(x*2,[x*3]))', '(1,0)'), ('(A(B,2),)', '0', 'lambda x:P(x).sum()', '0'), ('(A(B,2),)', '0', 'lambda x:(P(x),3.0*jnp.ones(2))', '0'), ('(A(B)>1,A(B))', '0', 'lambda b,x:jnp.where(b,P(x),0.)', '0'),
    ('(jnp.arange(B),A(B))', '0', 'lambda i,x:(i*2,P(x),i>1)', '0'), ('(jnp.arange(B),A(9))', '(0,None)', 'lambda i,x:x[P(i)]', '0'), ('(A(B,3),)', '0', 'lambda x:jnp.sort(P(x))', '0'), ('(A(B,2,2),)', '0', 'lambda x:jnp.linalg.slogdet(P(x)@P(x).T+jnp.eye(2))', '0'), ('(np.asarray(A(B,2)),)', '0', 'lambda x:P(x)*2', '0'), ('(A(B),np.asarray(A(2)))', '(0,None)', 'lambda x,k:P(x)*k', '0'), ('(A(B),2.5)', '(0,None)', 'lambda x,k:P(x)*k', '0'),
    ('(A(B)+1j*A(B),)', '0', 'lambda x:(P(x)**2,jnp.abs(x))', '0'), ('(A(B).astype(jnp.float32),)', '0', 'lambda x:(P(x)*2,x.astype(int))', '0'), ('(None,A(B))', '(None,0)', 'lambda n,x:P(x)*2', '0'), ('(A(B),A(B),A(2),A(2,B))', '(0,0,None,1)', 'lambda a,b,c,d:P(a)*b+c@d', '0'), ('(A(2,B),A(2),A(B),A(1))', '(1,None,0,None)', 'lambda a,b,c,d:(a*b,P(c)*d)', '(1,0)'),
    ('(A(2,3,B),)', '2', 'lambda x:P(x)[0]*2+x[1]', '0'), ('(A(2,3,B),)', '-1', 'lambda x:(P(x)[::-1],x[:,0])', '0'), ('(A(2,3,B),)', '2', 'lambda x:P(x)*w[:2,:3]', '2'), ('(A(2,3,B),)', '2', 'lambda x:P(x)', '(1)'), ('(A(2,B,3),)', '1', 'lambda x:P(x)@w[:3,:2]', '2'),
    ('(A(2,3,2,B),)', '3', 'lambda x:P(x)[0]@w[:2,:3]', '1'), ('(A(2,3,B,4),)', '2', 'lambda x:(P(x)[0],x[:,1])', '(0,2)'), ('(A(2,3,B,4),)', '-2', 'lambda x:P(x)*2', '-1'), ('(A(2,B,3,2),)', '-3', 'lambda x:P(x).sum(1)', '0'), ('(A(3,2,B),A(B,3,2))', '(2,0)', 'lambda x,y:P(x)-y[::-1]', '1'), ('(A(3,2,B),A(2,B,3))', '(-1,1)', 'lambda x,y:(P(x)@y,x.T)', '(2,0)'),
    ('(dict(a=A(2,3,B),b=A(B,2)),)', '(dict(a=2,b=0),)', 'lambda d:P(d["a"]).T@d["b"]', '1'), ('([A(2,3,B),A(3,2,B)],)', '2', 'lambda l:P(l[0])@l[1]', '2'), ('(A(2,3,B),A(4,3))', '(2,None)', 'lambda x,k:P(x)@k.T', '1'),
    ('(A(B,0),)', '0', 'lambda x:(P(x),x.sum())', '0'), ('(A(1,1,B,1),)', '2', 'lambda x:P(x)', '3'),
]
CTXS = ['jit', 'jvp', 'grad', 'nested', 'vmap', 'scan', 'lapl0', 'lapl3', 'kw']


def roots(tier):
    B, M, C = (10, 11, 6) if tier == 'quick' else (13, 14, 9)
    for s in range(len(SPECS)):
        for b in range(1, B + 1):
            yield dict(kind='s', spec=s, B=b, M=list(range(1, M + 1)))
    # histories: one vectorized function is called again with other lengths
    for s in range(len(SPECS)):
        yield dict(kind='h', spec=s, M=[2, 3, 5] if tier == 'quick' else list(range(1, 8)), B=[1, 4, 3, 6, 2, 7, 5, 3, 1] if tier == 'quick' else list(range(1, 10)) + [4, 8, 1, 9, 2, 5, 3, 7])
    for c in CTXS:
        for b in range(1, C + 1):
            yield dict(kind='c', ctx=c, B=b, M=list(range(1, C + 2)))


def make(expr, B):
    k = [0]

    def A(*sh):
        k[0] += 1
        return prog.inp(sh, k[0])

    return eval(expr, {'A': A, 'B': B, 'jnp': jnp, 'np': np, 'dict': dict})


def compare(got, want, label):
    if jtu.tree_structure(got) != jtu.tree_structure(want):
        return [f'{label}: structure {jtu.tree_structure(got)}, expected {jtu.tree_structure(want)}']
    bad = []
    for i, (a, b) in enumerate(zip(jtu.tree_leaves(got), jtu.tree_leaves(want))):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            bad.append(f'{label}: array {i} is {a.dtype}{a.shape}, expected {b.dtype}{b.shape}')
        elif not np.allclose(a, b, rtol=1e-9, atol=1e-9):
            bad.append(f'{label}: array {i} differs: {prog._fmt(a)} expected {prog._fmt(b)}')
    return bad


def run(case, seed, tier):
    CTX['seed'] = seed
    res = Result(key=[])
    B = case['B']
    if case['kind'] == 's':
        args, ia, fn, oa = SPECS[case['spec']]
        ns = dict(P=P, jnp=jnp, dict=dict, w=np.asarray(prog.w(4, 4)))
        ia, oa, fn = eval(ia), eval(oa, {'dict': dict}), eval(fn, ns)
        args = make(args, B)
        before = [np.array(a) for a in jtu.tree_leaves(args)]
        want = jax.vmap(fn, in_axes=ia, out_axes=oa)(*args)
        for M in case['M']:
            label = f'batch {B}, at most {M}'
            del SEEN[:]
            try:
                got = batched_vmap(fn, M, in_axes=ia, out_axes=oa)(*args)
            except Exception as e:
                if e.__class__.__name__ == 'CaseTimeout':
                    raise
                res.bad.append(f'{label}: raised {type(e).__name__}: {str(e)[:200]}')
                continue
            res.runs += 1
            res.bad += compare(got, want, label)
            if not SEEN or max(SEEN) > M:
                res.bad.append(f'{label}: evaluated {SEEN} samples at once')
            if not all(np.array_equal(a, b) for a, b in zip(before, jtu.tree_leaves(args))):
                res.bad.append(f'{label}: arguments changed')
            res.key.append([case['spec'], B, M, sorted(set(SEEN))])
        return res
    if case['kind'] == 'h':
        src, ia, fn, oa = SPECS[case['spec']]
        ns = dict(P=P, jnp=jnp, dict=dict, w=np.asarray(prog.w(4, 4)))
        ia, oa, fn = eval(ia), eval(oa, {'dict': dict}), eval(fn, ns)
        for M in case['M']:
            vm = batched_vmap(fn, M, in_axes=ia, out_axes=oa)
            for i, b in enumerate(B):
                args = make(src, b)
                want = jax.vmap(fn, in_axes=ia, out_axes=oa)(*args)
                del SEEN[:]
                label = f'call {i} of {B[: i + 1]}, at most {M}'
                try:
                    got = vm(*args)
                except Exception as e:
                    if e.__class__.__name__ == 'CaseTimeout':
                        raise
                    res.bad.append(f'{label}: raised {type(e).__name__}: {str(e)[:200]}')
                    continue
                res.runs += 1
                res.bad += compare(got, want, label)
                if not SEEN or max(SEEN) > M:
                    res.bad.append(f'{label}: evaluated {SEEN} samples at once')
                res.key.append(['h', case['spec'], M, i, b, max(SEEN, default=0)])
        return res
    x, p = prog.inp((B, 3), 1), prog.inp((3,), 2)
    f = lambda x, p: (jnp.tanh(x * p).sum() * P(x), jnp.outer(x, p)[:, ::-1])
    ctx = case['ctx']

    def wrap(vm):
        """the context around a way to vectorize"""
        g = vm(f, (0, None), (0, 1))
        if ctx == 'jit':
            return jax.jit(g)(x, p)
        if ctx == 'jvp':
            return jax.jvp(g, (x, p), (jnp.cos(x), p * 2))
        if ctx == 'grad':
            return jax.grad(lambda x, p: sum(a.sum() for a in g(x, p)), (0, 1))(x, p)
        if ctx == 'nested':
            return vm(lambda x: vm(lambda y: jnp.sin(y * P(x)).sum(), 0, 0)(p), 0, 0)(x)
        if ctx == 'vmap':
            return jax.vmap(g, (None, 0))(x, jnp.stack([p, p + 1]))
        if ctx == 'scan':
            return jax.lax.scan(lambda h, a: (h + a, g(h, p)), x, jnp.ones(2))
        if ctx == 'kw':
            return vm(lambda x, s, t=1.0: P(x) * s * t, (0, None), 0, s=2.0)(x, p) if False else vm(lambda x, p: P(x) * p, (0, None), 0)(x, p)
        th = int(ctx[4:])
        fl = forward_laplacian(lambda x: (x[0] * x * jnp.sin(x.sum()), x[:2]), th, disable_jit=True)

        def lap(x):
            o = fl(x)
            return [(l.x, jnp.concatenate([l.jacobian.dense_array, jnp.zeros((3 - l.jacobian.dense_array.shape[0], *l.x.shape))]), l.laplacian) for l in prog.lleaves(o)]

        return vm(lap, 0, 0)(x)

    want = wrap(lambda f, ia, oa: jax.vmap(f, ia, oa))
    for M in case['M']:
        label = f'{ctx}: batch {B}, at most {M}'
        try:
            got = wrap(lambda f, ia, oa: batched_vmap(f, M, ia, oa))
            if ctx == 'kw':
                h = lambda x, s, t=1.0: P(x) * s * t
                res.bad += compare(batched_vmap(h, M, (0, None))(x, p, t=3.0), jax.vmap(lambda x, s: h(x, s, 3.0), (0, None))(x, p), label)
                if getattr(batched_vmap(f, M), '__name__', None) != f.__name__:
                    res.bad.append(f'{label}: name not preserved')
        except Exception as e:
            if e.__class__.__name__ == 'CaseTimeout':
                raise
            res.bad.append(f'{label}: raised {type(e).__name__}: {str(e)[:200]}')
            continue
        res.runs += 1
        res.bad += compare(got, want, label)
        res.key.append([ctx, B, M])
    return res
