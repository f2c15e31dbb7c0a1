"""Derivative helpers against directional derivatives and central differences."""
import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
import prog
from core import Result
from folx import ad
from prog import CTX

BOUNDS = dict(
    quick='16 argument structures x 22 outer functions x 1-2 inner functions, 3 argument structures x all pairs of 8 inner and 22 outer functions, x real-real, real-complex, complex-complex, eager and (alternately) compiled or vectorized; every unit and two dense cotangents; all entries of Jacobians and Hessians',
    thorough='16 argument structures x all pairs of 14 inner and 22 outer functions, single and double precision, eager, compiled and vectorized each',
)
CHUNK = 24

# shapes of the arguments (nested structures are single arguments)
ARGS = [
    [()], [(1,)], [(3,)], [(2, 2)], [(0,)], [(1, 2, 1)], [(2,), (3,)], [(), (2,)], [(2,), ()], [(2, 1), (1, 2)], [(1,), (1,), (1,)], [(2,), (0,), (1,)],
    [{'a': (2,), 'b': [(), (1, 2)]}], [[(2,), (1,)], (2,)], [(2,), {'z': (), 'a': (2,)}], [(), (), ()],
]
# inner functions map the flat vector u of all entries to a vector; `I` is the imaginary unit for complex results
INNER = [
    'u', 'jnp.sin(u)', 'u*u', 'jnp.cumsum(u)*2', 'u[::-1]*u', 'jnp.concatenate([u,u**2])', 'jnp.stack([u,u*3])', 'jax.jit(jnp.exp)(u)',
    'jnp.outer(u,u)', 'jnp.tanh(u)+1', 'u**3', 'u[:1]', 'jnp.where(m(u.size),u,2.)', 'u/(2+u*u)',
]
# outer functions map w (any shape) to the result
OUTER = [
    'w*K', 'w.sum()*K', '(w**2).sum()*K', 'jnp.prod(w)*K', 'jnp.sin(w)*K', 'jnp.exp(w*K)', '(w*K)**3', 'jnp.sum(w*K)**2', 'w.ravel()[:1]*K', 'K*w.reshape(-1,1)', 'w.ravel()[::2]*K+w.sum()',
    'jnp.cosh(w)*K', 'jnp.outer(w.ravel(),w.ravel())*K', '(w*K).ravel()@w.ravel()', 'jax.jit(lambda a:a*a*K)(w)', 'lax.fori_loop(0,3,lambda i,a:a*w+K,w*K)', 'lax.scan(lambda h,a:(h*a,h),K*1.,w.ravel())[0]',
    'jax.checkpoint(jnp.sin)(w*K)', 'cj(w)*K', 'w*0+K', 'jnp.zeros(2)+K', 'jnp.zeros((0,))*K',
]
TREE = ['{"a":w*K,"b":(w.sum()*K,)}', '(w.sum(),w*K)', '[jnp.ones(2),w.ravel()[:1]*K]']


@jax.custom_jvp
def cj(a):
    return a**2 / 2


cj.defjvp(lambda p, t: (cj(p[0]), p[0] * t[0]))


def roots(tier):
    inner = INNER[:8] if tier == 'quick' else INNER
    i = 0
    for kind in ('rr', 'rc', 'cc'):
        for a in range(len(ARGS)):
            for g in inner:
                for o in OUTER + TREE:
                    if o in TREE and g not in INNER[:3]:
                        continue
                    if tier == 'quick' and inner.index(g) not in (1, 2) and (a not in (2, 6, 12)) and not (inner.index(g) == 5 and a == 14):
                        continue
                    if tier == 'quick' and inner.index(g) == 1 and OUTER.index(o if o in OUTER else 'w*K') % 3 != a % 3 and a not in (2, 6, 12):
                        continue
                    i += 1
                    modes = {1: ['e', 'j'], 4: ['e', 'v']}.get(i % 6, ['e']) if tier == 'quick' else ['e', 'j', 'v']
                    yield dict(kind=kind, a=a, g=g, o=o, modes=modes)
                    if tier == 'thorough':
                        yield dict(kind=kind, a=a, g=g, o=o, modes=['e'], f32=True)


def is_shape(t):
    return isinstance(t, tuple) and all(isinstance(i, int) for i in t)


def run(case, seed, tier):
    CTX['seed'] = seed
    kind = case['kind']
    rdt = np.float32 if case.get('f32') else np.float64
    dt = (np.complex64 if case.get('f32') else np.complex128) if kind == 'cc' else rdt
    tol = 2e-3 if case.get('f32') else 1e-8
    count = iter(range(100))

    def make(shape, off=0):
        k = next(count) + off
        a = prog.inp(shape, k)
        if kind == 'cc':
            a = a * 0.7 + 0.4j * prog.inp(shape, k + 50)
        return jnp.asarray(a, dt)

    spec = ARGS[case['a']]
    args = tuple(jtu.tree_map(make, s, is_leaf=is_shape) for s in spec)
    leaves, td = jtu.tree_flatten(args)
    sizes = [l.size for l in leaves]
    n = sum(sizes)
    res = Result(key=[kind, case['a'], case['g'], case['o']])
    if n == 0 and 'prod' in case['o'] + case['g']:
        return res
    ns = {**prog.NS, 'cj': cj, 'K': rdt(1.1) if kind == 'rr' else (np.complex64 if case.get('f32') else np.complex128)(0.8 + 0.6j)}
    g, o = compile(case['g'], '<g>', 'eval'), compile(case['o'], '<o>', 'eval')

    def f(*xs):
        u = jnp.concatenate([l.ravel() for l in jtu.tree_leaves(xs)])
        return eval(o, {**ns, 'w': eval(g, {**ns, 'u': u})})

    try:
        y = f(*args)
    except Exception:  # e.g. products over nothing in this function: no such function
        return res
    tree_out = case['o'] in TREE
    yl = [np.asarray(a) for a in jtu.tree_leaves(y)]
    flat = np.concatenate([a.ravel() for a in yl])
    m = flat.size

    def unit(i, scale=1.0):
        out, k = [], 0
        for l in leaves:
            v = np.zeros(l.size, dt)
            if k <= i < k + l.size:
                v[i - k] = scale
            out.append(jnp.asarray(v.reshape(l.shape)))
            k += l.size
        return jtu.tree_unflatten(td, out)

    ravel = lambda t: np.concatenate([np.asarray(a).ravel() for a in jtu.tree_leaves(t)])
    # reference: forward mode of JAX on flat vectors; checked by central differences below
    cd = np.result_type(flat.dtype, dt)

    def ff(u):
        out, k = [], 0
        for l in leaves:
            out.append(u[k : k + l.size].reshape(l.shape))
            k += l.size
        return jnp.concatenate([a.astype(cd).ravel() for a in jtu.tree_leaves(f(*jtu.tree_unflatten(td, out)))])

    u0 = jnp.concatenate([l.ravel() for l in leaves])
    eye = jnp.eye(n, dtype=dt)
    first = lambda u: jax.vmap(lambda s: jax.jvp(ff, (u,), (s,))[1], out_axes=-1)(eye)
    J, H = np.zeros((m, n), cd), np.zeros((m, n, n), cd)
    if n:
        J[:] = first(u0)
        H[:] = jax.vmap(lambda s: jax.jvp(first, (u0,), (s,))[1], out_axes=-1)(eye)
    if not case.get('f32'):
        add = lambda s: jtu.tree_map(lambda a, b: a + b, args, s)
        for i in range(n):
            h = 1e-5
            fd = (ravel(f(*add(unit(i, h)))) - ravel(f(*add(unit(i, -h))))) / (2 * h)
            if not np.allclose(fd, J[:, i], rtol=1e-5, atol=1e-5 * (1 + np.abs(J).max(initial=0))):
                res.skip = 'no reference'  # e.g. not differentiable here
                return res
    sc = 1 + np.abs(J).max(initial=0)
    sh = 1 + np.abs(H).max(initial=0)

    def same(a, b, scale, what):
        a = np.asarray(a)
        if a.shape != b.shape:
            res.bad.append(f'{what}: shape {a.shape}, expected {b.shape}')
            return False
        if not np.all(np.abs(a - b) <= tol * scale):
            res.bad.append(f'{what}: off by {np.abs(a - b).max()} (scale {scale})')
            return False
        return True

    def rows(M, extra=()):
        """the reference laid out like the primals: [m, *shape, *extra] per leaf"""
        out, k = [], 0
        for l in leaves:
            out.append(M[:, k : k + l.size].reshape((m,) + l.shape + extra))
            k += l.size
        return out

    single = len(args) == 1

    def lay_check(got, want, scale, what):
        exp = jtu.tree_unflatten(td, list(range(len(leaves))))
        exp = exp[0] if single else exp
        if jtu.tree_structure(got) != jtu.tree_structure(exp):
            res.bad.append(f'{what}: structure {jtu.tree_structure(got)}')
            return
        for i, (a, b) in enumerate(zip(jtu.tree_leaves(got), want)):
            same(a, b, scale, f'{what} argument {i}')

    def attempt(what, fn):
        try:
            r = fn()
        except Exception as e:
            if e.__class__.__name__ == 'CaseTimeout':
                raise
            res.bad.append(f'{what}: raised {type(e).__name__}: {str(e)[:200]}')
            return None
        res.runs += 1
        return (r,)

    for mode in case['modes']:
        if mode == 'j':
            wrap = jax.jit
        elif mode == 'v':
            def wrap(h):
                def batched(*a):
                    st = jtu.tree_map(lambda b: jnp.stack([b * 0.5, b]), a)
                    return jtu.tree_map(lambda b: b[1], jax.vmap(h)(*st))
                return batched
        else:
            wrap = lambda h: h
        r = attempt(f'{mode} jacfwd', lambda: wrap(ad.jacfwd(f))(*args))
        if r:
            if jtu.tree_structure(r[0]) != jtu.tree_structure(y):
                res.bad.append(f'{mode} jacfwd: structure of the result {jtu.tree_structure(r[0])}')
            else:
                k = 0
                for a, b in zip(jtu.tree_leaves(r[0]), yl):
                    same(a, J[k : k + b.size].reshape(b.shape + (n,)), sc, f'{mode} jacfwd')
                    k += b.size
        r = attempt(f'{mode} jacrev', lambda: wrap(ad.jacrev(f))(*args))
        if r:
            lay_check(r[0], rows(J), sc, f'{mode} jacrev')
        r = attempt(f'{mode} hessian', lambda: wrap(ad.hessian(f))(*args))
        if r:
            lay_check(r[0], rows(H, (n,)), sh, f'{mode} hessian')
        if tree_out:
            continue
        # cotangents: unit vectors and dense ones
        cts = list(np.eye(m, dtype=flat.dtype)) + [np.linspace(0.3, 1.7, m).astype(flat.dtype)]
        if np.iscomplexobj(flat):
            cts += [c * (0.6 - 0.3j) for c in cts]
        for q, ct in enumerate(cts[:4] + cts[-2:]):
            ct = ct.astype(flat.dtype)
            r = attempt(f'{mode} vjp', lambda: wrap(lambda *a: ad.vjp(f, *a)(jnp.asarray(ct.reshape(yl[0].shape))))(*args))
            if r is None:
                break
            got = r[0]
            if not isinstance(got, tuple) or len(got) != len(args) or jtu.tree_structure(got) != td:
                res.bad.append(f'{mode} vjp: structure {jtu.tree_structure(got)}')
                break
            want, k = ct @ J, 0
            for a, l in zip(jtu.tree_leaves(got), leaves):
                if not same(a, want[k : k + l.size].reshape(l.shape), sc * 3 * (1 + np.sqrt(m)), f'{mode} vjp cotangent {q}'):
                    break
                k += l.size
    return res
