"""Transparency: words of JAX transformations around the transformed function, and
histories of calls of one transformed function."""
import itertools

import jax
import jax.flatten_util as jfu
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
import prog
from core import Result
from folx import forward_laplacian
from prog import CTX

BOUNDS = dict(
    quick='all words of length 1 over 12 JAX transformations around 26 programs and all words of length 2 (with at most one differentiation) around 13 of them each, all words of length 3 over 8 distinct transformations around one; all histories of <= 3 calls over 6 call signatures of 4 polymorphic programs and of 2 calls for 10 more; thresholds 0, 2, 100',
    thorough='all words of length <= 3 around all programs; all histories of length 3 for all programs (4 for one), thresholds 0, 1, 2, 3, 100',
)
CHUNK = 6

# f(p, x): p (2,) a parameter, x (3,) the differentiated input
PROGS = [
    'jnp.sin(x*p[0]).sum()*p[1]', 'x[:2]*p', 'jnp.outer(p,x)@x', '(w(3,2)@p)@x', 'jnp.dot(jnp.outer(x,p),p)*x', 'jnp.tanh(w(2,3)@x+p).sum()', 'jnp.tanh(x[:,None]*p).sum(0)', 'jnp.prod(x*p[0])+p[1]', 'jnp.max(x*p[:1])', 'jnp.sort(x*x)[::-1]*p[0]',
    'jnp.cumsum(x*p[1])', 'jnp.linalg.slogdet(jnp.outer(x,x)*p[0]+jnp.diag(x+p[1]))[1]', 'lax.scan(lambda h,a:(jnp.tanh(h*a),h.sum()),x@jnp.ones((3,3)),p)', 'lax.scan(lambda h,a:(jnp.sin(h*a),h),x*x,jnp.ones(2)*p)',
    'jnp.concatenate([x,p])**2', 'jnp.where(x>0.9,x*p[0],x**2)', 'x[jnp.array([2,0,2])]*p[0]', '(x*(p[0]+1j)).sum()', 'jnp.abs(x+1j*p[1])', 'jnp.linalg.norm(x-p[0])', 'jax.nn.silu(x)*p[1]', 'jax.nn.softmax(x*p[0])', 'jnp.pad(x,1)*p[0]', 'jnp.zeros(4).at[1:].set(x)*p[0]',
    'jnp.einsum("i,j,i->j",x,p,x)', '(x[0]*p,p*2,x)',
]
# transformations: (name, differentiates)
ALPHA = ['jit', 'vmapx', 'vmapp', 'vmapxp', 'vmapx1', 'scan', 'lmap', 'gradp', 'jvpp', 'jfwdp', 'remat', 'cond']
DIFF = {'gradp', 'jvpp', 'jfwdp'}


def words(k):
    for wd in itertools.product(ALPHA, repeat=k):
        if sum(a in DIFF for a in wd) <= 1:
            yield wd


def lift(name, Q):
    """One transformation of a function (p, x) -> tree."""
    if name == 'jit':
        return jax.jit(Q)
    if name == 'vmapx':
        return lambda p, x: jax.vmap(Q, (None, 0))(p, jnp.stack([x, x[::-1] * 1.1]))
    if name == 'vmapx1':
        return lambda p, x: jax.vmap(Q, (None, 1), -1)(p, jnp.stack([x, x * 0.8], 1))
    if name == 'vmapp':
        return lambda p, x: jax.vmap(Q, (0, None))(jnp.stack([p, p * 1.2]), x)
    if name == 'vmapxp':
        return lambda p, x: jax.vmap(Q)(jnp.stack([p, p * 1.2]), jnp.stack([x, x[::-1] * 1.1]))
    if name == 'scan':
        return lambda p, x: jax.lax.scan(lambda h, a: (h * 0.9, Q(p * a, h)), x, jnp.array([1.0, 0.8]))[1]
    if name == 'lmap':
        return lambda p, x: jax.lax.map(lambda a: Q(p, x * a), jnp.array([1.0, 1.1]))
    if name == 'gradp':
        def g(p, x):
            y, pull = jax.vjp(lambda p: Q(p, x), p)
            return pull(jtu.tree_map(lambda v: jnp.full_like(v, 0.7), y))
        return g
    if name == 'jvpp':
        return lambda p, x: jax.jvp(lambda p: Q(p, x), (p,), (jnp.ones_like(p) * 0.3,))
    if name == 'jfwdp':
        return lambda p, x: jax.jacfwd(Q)(p, x)
    if name == 'remat':
        return jax.checkpoint(Q)
    if name == 'cond':
        return lambda p, x: jax.lax.cond(p.sum() > 0, Q, lambda p, x: Q(p * 2, x), p, x)
    raise ValueError(name)


def scatter(data, idx, n):
    """dense Jacobian of a sparse one whose indices passed through a compilation boundary"""
    idx = jnp.broadcast_to(idx, data.shape)
    out = jnp.zeros((n + 1,) + data.shape[1:], data.dtype)
    pos = jnp.indices(data.shape)
    return out.at[(jnp.where(idx < 0, n, idx),) + tuple(pos[1:])].add(data)[:n]


def quantity(f, th, mode):
    def Q(p, x):
        n = x.size
        out = forward_laplacian(lambda x: f(p, x), th, disable_jit=mode == 'e')(x)
        res = []
        for l in prog.lleaves(out):
            if prog.is_lpl(l):
                if isinstance(l.jacobian.x0_idx, jax.core.Tracer):
                    J = scatter(l.jacobian.data, l.jacobian.x0_idx, n)
                else:
                    J = l.jacobian.dense_array
                J = jnp.concatenate([J, jnp.zeros((n - J.shape[0], *J.shape[1:]), J.dtype)])
                res.append((l.x, J, l.laplacian))
            else:
                z = jnp.zeros(jnp.shape(l), jnp.result_type(l))
                res.append((l, jnp.zeros((n,) + z.shape, z.dtype), z))
        return res

    return Q


def reference(f):
    def Q(p, x):
        n = x.size

        def dd(t):
            def inner(v):
                return jax.jvp(lambda x: f(p, x), (v,), (t.reshape(x.shape),))

            (y, dy), (_, ddy) = jax.jvp(inner, (x,), (t.reshape(x.shape),))
            return y, dy, ddy

        y, J, H = jax.vmap(dd, out_axes=(None, 0, 0))(jnp.eye(n))
        return [(a, b, h.sum(0)) for a, b, h in zip(*map(jtu.tree_leaves, (y, J, H)))]

    return Q


# --- histories -----------------------------------------------------------------------
# polymorphic programs of one argument tree, and the calls of the alphabet
POLY = [
    'jtu.tree_map(lambda a:jnp.sin(a).sum()*a,t)', 'sum(jnp.prod(a) for a in L)', 'jnp.concatenate([a.ravel() for a in L])[::-1]*2', '(L[0]*L[-1].ravel()[0],)', 'jnp.tanh(F[:,None]@F[None]).sum(0)', 'jnp.max(F)', 'jnp.cumsum(F*F)', 'jnp.zeros(F.shape).at[::2].add(F[::2])',
    'lax.scan(lambda h,a:(h*a,h.sum()),jnp.sin(F@jnp.ones((F.shape[0],3))),jnp.ones(2))', 'jax.nn.silu(F)', 'jnp.linalg.slogdet(jnp.outer(F,F)+jnp.diag(F))', 'jnp.sort(F)*jnp.linalg.norm(F)',
    # depends on the structure of its argument, not only on the shapes of the leaves
    '(jnp.sin(t["a"])*t["b"] if isinstance(t,dict) else t[0]*2+t[1]**2 if isinstance(t,tuple) else F)',
    # reads a mutable value, which eager calls have to follow
    'F*jnp.sin(F.sum()*G[0])',
    # keyword arguments, which may change between calls
    'F*jnp.sin(F.sum())*kw["c"]+kw["d"]',
    'jnp.tanh(F[:,None]*kw["c"])@(jnp.ones(1)*kw["d"])',
]
# the values of the keyword arguments at each step: equal shapes, then others
KW = ['dict(c=jnp.array([1.5]),d=jnp.arange(3.)[:1])', 'dict(c=jnp.array([0.7]),d=jnp.arange(1.,4.)[:1])', 'dict(c=jnp.array([0.7]),d=2.0*jnp.ones(1))', 'dict(c=2.0,d=jnp.ones(()))']
CALLS = ['A(3)', 'A(3)*1.3', 'A(2,2)', '(A(2),A(1))', 'dict(a=A(2),b=A(1))', 'A(3).astype(jnp.float32)']


def history_words(k, full):
    for wd in itertools.product(range(len(CALLS)), repeat=k):
        if full or k == 2 or len(set(wd)) > 1:
            yield wd


def roots(tier):
    ths = ['0', '2', '100']
    i = 0
    for k in (0, 1, 2, 3):
        for j, f in enumerate(PROGS):
            if k == 3 and tier == 'quick' and j != 16:
                continue
            for n, wd in enumerate(words(k)):
                i += 1
                if k == 3 and tier == 'quick' and (len(set(wd)) < 3 or {'lmap', 'vmapx1', 'jvpp', 'cond'} & set(wd)):
                    continue
                if k == 2 and tier == 'quick' and (n + j) % 2:
                    continue
                m = 'ej'[(i + j) % 2]
                if k <= 1:
                    tm = [t + m for t in ths for m in 'ej']
                elif tier == 'thorough' and k == 2:
                    tm = [ths[i % 3] + m, ths[(i + 1) % 3] + 'ej'[(i + j + 1) % 2]]
                else:
                    tm = [ths[(i + j) % 3] + m]
                yield dict(kind='w', f=f, word=list(wd), tm=tm)
    for j, f in enumerate(POLY):
        if 'kw[' in f:
            for off, wd in itertools.product(range(len(KW)), itertools.product((0, 4), repeat=3)):
                i += 1
                yield dict(kind='h', f=f, word=list(wd), tm=[ths[i % 3] + 'e', ths[(i + 1) % 3] + 'j'], off=off)
            continue
        for k in (1, 2, 3, 4):
            if k == 4 and (tier == 'quick' or j != 0):
                continue
            if k == 3 and tier == 'quick' and j >= 4:
                continue
            for wd in history_words(k, tier == 'thorough'):
                i += 1
                tm = [ths[i % 3] + 'ej'[i // 3 % 2]] if tier == 'quick' else [ths[i % 3] + 'j', ths[(i + 1) % 3] + 'e']
                if j >= 12:
                    tm = [ths[i % 3] + 'e'] + ([ths[i % 3] + 'j'] if 'G[0]' not in f else [])
                yield dict(kind='h', f=f, word=list(wd), tm=tm)


def build(src):
    co = compile(src, '<f>', 'eval')
    return lambda p, x: eval(co, {**prog.NS, 'p': p, 'x': x})


def poly(src):
    co = compile(src, '<f>', 'eval')
    frozen = np.arange(4.0)
    G = [1.0]

    def f(t, **kw):
        return eval(co, {**prog.NS, 't': t, 'kw': kw, 'G': G, 'L': jtu.tree_leaves(t), 'F': jfu.ravel_pytree(t)[0], 'jtu': jtu, 'K': frozen})

    f.frozen, f.G = frozen, G
    return f


def run(case, seed, tier):
    CTX['seed'] = seed
    return words_run(case) if case['kind'] == 'w' else history_run(case)


def words_run(case):
    f = build(case['f'])
    p, x = prog.inp((2,), 7), prog.inp((3,), 1)
    R = reference(f)
    for name in case['word']:
        R = lift(name, R)
    want = [np.asarray(a) for a in jtu.tree_leaves(R(p, x))]
    if not all(np.all(np.isfinite(a)) for a in want):
        return Result(skip='reference not finite')
    res = Result(key=[])
    for th, mode in prog.parse_tm(case['tm']):
        Q = quantity(f, th, mode)
        for name in case['word']:
            Q = lift(name, Q)
        p0, x0 = np.array(p), np.array(x)
        try:
            got = Q(p, x)
        except Exception as e:
            if e.__class__.__name__ == 'CaseTimeout':
                raise
            res.runs += 1
            res.bad.append(f'th={th} mode={mode}: raised {type(e).__name__}: {str(e)[:200]}')
            continue
        res.runs += 1
        got = jtu.tree_leaves(got)
        if len(got) != len(want):
            res.bad.append(f'th={th} mode={mode}: {len(got)} arrays, expected {len(want)}')
            continue
        for i, (a, b) in enumerate(zip(got, want)):
            a = np.asarray(a)
            if a.shape != b.shape:
                res.bad.append(f'th={th} mode={mode}: array {i} has shape {a.shape}, expected {b.shape}')
            elif not prog.close(a, b, 1 + float(np.max(np.abs(b), initial=0)), 1e-7):
                res.bad.append(f'th={th} mode={mode}: array {i} (of value, jacobian, laplacian per output) is {prog._fmt(a)}, expected {prog._fmt(b)}')
        if not (np.array_equal(p0, p) and np.array_equal(x0, x)):
            res.bad.append(f'th={th} mode={mode}: inputs changed')
        res.key.append([th, [[list(a.shape), str(a.dtype)] for a in want]])
    res.key = [case['f'], sorted(case['word']), res.key]
    return res


def mk(expr, k):
    cnt = [k]

    def A(*sh):
        cnt[0] += 1
        return prog.inp(sh, cnt[0])

    return eval(expr, {'A': A, 'dict': dict, 'jnp': jnp})


def history_run(case):
    f = poly(case['f'])
    res = Result(key=[])
    for th, mode in prog.parse_tm(case['tm']):
        fl = forward_laplacian(f, th, disable_jit=mode == 'e')
        held = []
        for step, c in enumerate(case['word']):
            t = mk(CALLS[c], 3 * step)
            f.G[0] = 1.0 + 0.5 * step
            kw = eval(KW[(step + case['off']) % len(KW)], {'jnp': jnp, 'dict': dict}) if 'off' in case else {}
            before = [np.array(a) for a in jtu.tree_leaves(t)]
            try:
                ref = prog.reference(lambda F, t=t: f(jfu.ravel_pytree(t)[1](F), **kw), (jfu.ravel_pytree(t)[0],))
            except Exception as e:
                if e.__class__.__name__ == 'CaseTimeout':
                    raise
                return Result(skip=f'reference rejects: {type(e).__name__}')
            if not prog.ref_ok(ref):
                return Result(skip='reference not finite')
            tol = 1e-7 if 'float32' not in CALLS[c] else 2e-3
            n = prog.total_n((t,))
            try:
                out = fl(t, **kw)
            except Exception as e:
                if e.__class__.__name__ == 'CaseTimeout':
                    raise
                res.bad.append(f'th={th} mode={mode} call {step}: raised {type(e).__name__}: {str(e)[:200]}')
                break
            res.runs += 1
            if jtu.tree_structure(out, is_leaf=prog.is_lpl) != jtu.tree_structure(jax.eval_shape(lambda t: f(t, **kw), t)):
                res.bad.append(f'th={th} mode={mode} call {step}: structure of the result')
            held.append((step, out, ref, n, tol))
            # every result handed out so far must still be right
            for s, o, r, m, tl in held:
                res.bad += [f'th={th} mode={mode} after call {step}, result of call {s}: {b}' for b in prog.compare(o, r, m, tl)]
            if not all(np.array_equal(a, b) for a, b in zip(before, jtu.tree_leaves(t))) or not np.array_equal(f.frozen, np.arange(4.0)):
                res.bad.append(f'th={th} mode={mode} call {step}: inputs changed')
            if res.bad:
                break
            res.key.append([th, sorted(set(case['word'][:step + 1])), [prog.state_of(l) for l in prog.lleaves(out)]])
    return res
