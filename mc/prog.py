"""Program DSL, reference semantics and the monitors applied to every execution.

A program is a JSON object
    in    list of input shapes (the differentiated arguments)
    prog  list of Python expressions over v[0..] (inputs, then earlier steps)
    out   indices of the returned values (default: last)
    th    sparsity thresholds to execute
    mode  'e' (disable_jit), 'j' (default jit) or 'ej'
    tm    instead of th/mode: list of threshold+mode, e.g. ["0e", "3j", "0.5j"]
The reference never touches folx: it is JAX's own nested forward mode on the flat input.
"""

import contextlib
import zlib

import jax
import jax.experimental
import jax.flatten_util as jfu
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
from core import Result
from jax import lax

import folx
from folx import forward_laplacian
from folx.api import FwdJacobian, FwdLaplArray

CTX = dict(seed=1)
_CACHE = {}


def _rng(*key):
    return np.random.default_rng(zlib.crc32(repr((CTX['seed'],) + key).encode()))


def _generic(shape, rng, lo, hi):
    n = int(np.prod(shape, dtype=int))
    # evenly spread and jittered: values never tie, whatever the seed
    base = (np.arange(n) + 0.25 + 0.5 * rng.random(n)) / max(n, 1)
    rng.shuffle(base)
    return (lo + (hi - lo) * base).reshape(shape)


def inp(shape, k=0, signed=False, dtype=None):
    shape = tuple(shape)
    r = _rng('in', shape, k)
    a = _generic(shape, r, 0.37, 1.73)
    if signed:
        a = a * np.where(np.arange(a.size).reshape(shape) % 2 == k % 2, 1, -1)
    return jnp.asarray(a, dtype=dtype)


def c(*shape, k=0):
    """positive generic constant (jax array)"""
    key = ('c', CTX['seed'], shape, k, jax.config.jax_enable_x64)
    if key not in _CACHE:
        with jax.ensure_compile_time_eval():
            _CACHE[key] = jnp.asarray(_generic(shape, _rng('c', shape, k), 0.45, 1.55))
    return _CACHE[key]


def w(*shape, k=0):
    """signed generic constant (jax array)"""
    key = ('w', CTX['seed'], shape, k, jax.config.jax_enable_x64)
    if key not in _CACHE:
        a = _generic(shape, _rng('w', shape, k), 0.3, 1.3)
        a = a * _rng('s', shape, k).choice([-1, 1], size=shape)
        with jax.ensure_compile_time_eval():
            _CACHE[key] = jnp.asarray(a)
    return _CACHE[key]


def cn(*shape, k=0):
    """positive generic constant (numpy array)"""
    return np.asarray(c(*shape, k=k))


def m(*shape, k=0):
    """boolean constant, both values occur"""
    key = ('m', shape, k)
    if key not in _CACHE:
        n = int(np.prod(shape, dtype=int))
        _CACHE[key] = np.array([(i * 7 + k + i // 3) % 3 != 0 for i in range(n)]).reshape(shape)
    return _CACHE[key]


def ix(shape, axes, n, k=0):
    """constant positions in 0..n-1 that differ along the given axes only"""
    shape = tuple(shape)
    pos = np.indices(shape)
    a = np.zeros(shape, int) + k
    for d, x in enumerate(axes):
        a = a + (1, 2, 5, 3)[d] * pos[x] + d * pos[x] ** 2
    return a % n


@jax.custom_jvp
def CJ3(a, b, c):
    """custom derivative rule of three arguments (a truthful one)"""
    return jnp.sin(a) * b + a * c**2 - b * c


CJ3.defjvp(
    lambda p, t: (
        CJ3(*p),
        (jnp.cos(p[0]) * p[1] + p[2] ** 2) * t[0] + (jnp.sin(p[0]) - p[2]) * t[1] + (2 * p[0] * p[2] - p[1]) * t[2],
    )
)


@jax.custom_jvp
def CJ4(a, b, c, d):
    return a * jnp.exp(0.3 * b) + b * c**2 * d + jnp.sin(c * a) - d**2 * a


def _cj4(p, t):
    a, b, c, d = p
    return CJ4(*p), (
        (jnp.exp(0.3 * b) + c * jnp.cos(c * a) - d**2) * t[0] + (0.3 * a * jnp.exp(0.3 * b) + c**2 * d) * t[1]
        + (2 * b * c * d + a * jnp.cos(c * a)) * t[2] + (b * c**2 - 2 * d * a) * t[3]
    )


CJ4.defjvp(_cj4)


@jax.custom_jvp
def CN(z):
    """complex scalar or array to a real number"""
    return (z.real**2 + jnp.sin(z.imag) * z.real).sum()


CN.defjvp(lambda p, t: (CN(p[0]), ((2 * p[0].real + jnp.sin(p[0].imag)) * t[0].real + jnp.cos(p[0].imag) * p[0].real * t[0].imag).sum()))


@jax.custom_jvp
def CC(z):
    """holomorphic and coupled"""
    return z * (z**2).sum()


CC.defjvp(lambda p, t: (CC(p[0]), t[0] * (p[0] ** 2).sum() + p[0] * (2 * p[0] * t[0]).sum()))


def bc(f, *a):
    """f of the arguments broadcast against each other"""
    return f(*jnp.broadcast_arrays(*a))


def LIB(name):
    import library

    return library.E[name]


NS = dict(LIB=LIB, jnp=jnp, lax=lax, jax=jax, np=np, c=c, w=w, cn=cn, m=m, ix=ix, CJ3=CJ3, CJ4=CJ4, CN=CN, CC=CC, bc=bc)
_COMPILED = {}


def _eval(expr, v):
    co = _COMPILED.get(expr)
    if co is None:
        co = _COMPILED[expr] = compile(expr, '<prog>', 'eval')
    return eval(co, {**NS, 'v': v})


def build(case):
    prog, n_in = case['prog'], len(case['in'])
    out = case.get('out')

    def f(*args):
        v = list(args)
        for e in prog:
            v.append(_eval(e, v))
        if out is None:
            return v[-1]
        return tuple(v[i] for i in out)

    f.__name__ = 'program'
    return f


def inputs(case):
    return tuple(
        inp(s, k, case.get('signed', False), case.get('dtype')) for k, s in enumerate(case['in'])
    )


def np_leaves(tree):
    return [np.asarray(l) for l in jtu.tree_leaves(tree)]


def reference(f, args, weights=None):
    """(values, jacobians[..., n], laplacians) per output leaf, by JAX's nested jacfwd."""
    flat, un = jfu.ravel_pytree(args)
    wv = np.ones(flat.shape[0]) if weights is None else np.asarray(weights)
    n = flat.shape[0]

    def g(v):
        return f(*un(v))

    def d1(v, t):
        return jax.jvp(g, (v,), (t,))

    eye = jnp.diag(jnp.asarray(wv, flat.dtype))

    def dd(t):
        def inner(v):
            return d1(v, t)

        (y, dy), (_, ddy) = jax.jvp(inner, (flat,), (t,))
        return y, dy, ddy

    y, J, H = jax.vmap(dd, out_axes=(None, -1, -1))(eye)
    ys, Js = np_leaves(y), []
    Js = [a for a in jtu.tree_leaves(J)]
    Hs = [a for a in jtu.tree_leaves(H)]
    Jn, Ln = [], []
    for yy, j, h in zip(ys, Js, Hs):
        if j.dtype == jax.dtypes.float0:
            Jn.append(np.zeros((*yy.shape, n)))
            Ln.append(np.zeros(yy.shape))
        else:
            Jn.append(np.asarray(j))
            Ln.append(np.asarray(h).sum(-1))
    return ys, Jn, Ln


def is_lpl(x):
    return isinstance(x, FwdLaplArray)


def lleaves(tree):
    return jtu.tree_leaves(tree, is_leaf=is_lpl)


def close(a, b, scale, tol):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.size == 0:
        return True
    if a.dtype == bool or b.dtype == bool:
        return bool(np.array_equal(a, b))
    with np.errstate(all='ignore'):
        d = np.abs(a - b)
        return bool(np.all(d <= tol * scale))


def scatter_jac(data, idx, n):
    """Our own reading of a sparse Jacobian (independent of dense_array)."""
    data = np.asarray(data)
    idx = np.broadcast_to(np.asarray(idx), data.shape)
    out = np.zeros((n,) + data.shape[1:], dtype=data.dtype)
    pos = np.indices(data.shape)
    keep = idx >= 0
    np.add.at(out, (idx[keep],) + tuple(p[keep] for p in pos[1:]), data[keep])
    return out


def check_leaf(leaf, y, J, L, n, tol=1e-7, exact_rows=False, sparse_monitor=True):
    """Monitors on one output; returns a list of messages."""
    bad = []
    scale = 1.0 + max(
        [float(np.max(np.abs(a))) if a.size else 0.0 for a in (y, J, L)]
    )
    if not is_lpl(leaf):
        yy = np.asarray(leaf)
        if yy.shape != y.shape:
            return [f'value shape {yy.shape} != {y.shape}']
        if not close(yy, y, scale, tol):
            bad.append('value wrong')
        if np.any(np.abs(J) > tol * scale) or np.any(np.abs(L) > tol * scale):
            bad.append('plain output although it depends on the input')
        return bad
    x = np.asarray(leaf.x)
    if x.shape != y.shape:
        return [f'value shape {x.shape} != {y.shape}']
    if x.dtype != jax.dtypes.canonicalize_dtype(y.dtype):
        bad.append(f'value dtype {x.dtype} != {y.dtype}')
    if not close(x, y, scale, tol):
        bad.append(f'value wrong by {np.max(np.abs(x - y)):.3g}')
    lap = np.asarray(leaf.laplacian)
    if lap.shape != y.shape:
        bad.append(f'laplacian shape {lap.shape} != {y.shape}')
    elif not close(lap, L, scale, tol):
        bad.append(f'laplacian wrong: {_fmt(lap)} expected {_fmt(L)}')
    Jt = np.moveaxis(J, -1, 0)
    idx = leaf.jacobian.x0_idx
    try:
        dj = np.asarray(leaf.jacobian.dense_array)
    except Exception as e:
        bad.append(f'dense_array raised {type(e).__name__}: {str(e)[:120]}')
        dj = None
    if dj is not None:
        if dj.shape[1:] != y.shape or dj.shape[0] > n or (idx is None and exact_rows and dj.shape[0] != n):
            bad.append(f'dense jacobian shape {dj.shape}, expected {(n,) + y.shape}')
        else:
            full = np.zeros((n,) + y.shape, dtype=dj.dtype)
            full[: dj.shape[0]] = dj
            if not close(full, Jt, scale, tol):
                bad.append(f'jacobian wrong: max err {np.max(np.abs(full - Jt)):.3g}')
    if idx is not None and sparse_monitor:
        ia = np.asarray(idx)
        data = np.asarray(leaf.jacobian.data)
        try:
            ia = np.broadcast_to(ia, data.shape)
            if ia.size and (ia.min() < -1 or ia.max() >= n):
                bad.append(f'sparse index out of range: {ia.min()}..{ia.max()} of {n}')
            else:
                mine = scatter_jac(data, ia, n)
                if not close(mine, Jt, scale, tol):
                    bad.append(
                        f'sparse jacobian entries wrong: max err {np.max(np.abs(mine - Jt)):.3g}'
                    )
        except ValueError as e:
            bad.append(f'sparse index shape {ia.shape} vs data {data.shape}')
    return bad


def _fmt(a):
    a = np.asarray(a).ravel()[:4]
    return np.array2string(a, precision=5, separator=',')


def state_of(leaf):
    if not is_lpl(leaf):
        a = np.asarray(leaf)
        return ['plain', list(a.shape), str(a.dtype)]
    idx = leaf.jacobian.x0_idx
    if idx is None:
        return ['dense', list(leaf.x.shape), str(leaf.x.dtype), int(leaf.jacobian.data.shape[0])]
    ia = np.asarray(idx)
    return [
        'sparse', list(leaf.x.shape), str(leaf.x.dtype), list(ia.shape),
        zlib.crc32(np.ascontiguousarray(ia.astype(np.int64)).tobytes()),
    ]


def total_n(args):
    return sum(int(np.size(a)) for a in jtu.tree_leaves(args))


LIMIT = 1e9


def ref_ok(ref):
    for part in ref:
        for a in part:
            if a.size and not np.all(np.isfinite(a)):
                return False
            if a.size and np.max(np.abs(a)) > LIMIT:
                return False
    return True


def execute(f, args, th, mode, weights=None, **kw):
    fl = forward_laplacian(f, th, disable_jit=(mode in 'es'))
    if weights is not None:
        kw['weights'] = weights
    return fl(*args, **kw)


def compare(out, ref, n, tol=1e-7, **kw):
    leaves = lleaves(out)
    if len(leaves) != len(ref[0]):
        return [f'{len(leaves)} outputs, expected {len(ref[0])}']
    bad = []
    for i, (l, y, J, L) in enumerate(zip(leaves, *ref)):
        for b in check_leaf(l, y, J, L, n, tol, **kw):
            bad.append(f'out[{i}] {b}')
    return bad


# Tolerance of executions in single precision, the default of JAX.  It only has to tell a wrong
# entry from rounding: the exact comparison is made in double precision.
SINGLE_TOL = 2e-2


def narrow(tree):
    def one(a):
        if isinstance(a, (jax.Array, np.ndarray)) and a.dtype.kind in 'fciu':
            return jnp.asarray(np.asarray(a), jax.dtypes.canonicalize_dtype(a.dtype))
        return a

    return jtu.tree_map(one, tree)


def single(plan, case):
    """Half of the eager executions with sparsity happen in single precision (mode s).

    The integers of sparsity patterns have another width there, which other rules rely on."""
    if 'random' in repr(case) or "LIB('rand" in repr(case):  # random numbers depend on the precision
        return plan
    h = zlib.crc32(repr(case).encode())
    return [(th, 's' if mode == 'e' and th > 0 and (h + i) % 2 else mode) for i, (th, mode) in enumerate(plan)]


def parse_tm(tm):
    return [(float(t[:-1]) if '.' in t else int(t[:-1]), t[-1]) for t in tm]


def run_fn(f, args, plan, allow=None, tol=1e-7, weights=None, kwargs=None, succ=None, case=None, ref=None, ref_args=None, must_ref=False, **mon):
    """Executes f in every (threshold, mode) of the plan and applies the monitors.

    allow(exception) -> True if the implementation may reject this program by raising it.
    weights: None or (argument for folx, flat weight per input scalar for the reference)
    """
    kwargs = kwargs or {}
    wf, wr = weights if weights is not None else (None, None)
    if ref is None:
        try:
            ref = reference((lambda *a: f(*a, **kwargs)) if kwargs else f, args if ref_args is None else ref_args, wr)
        except Exception as e:
            if must_ref or e.__class__.__name__ == 'CaseTimeout':
                raise
            return Result(skip=f'reference rejects: {type(e).__name__}')
    if not ref_ok(ref):
        return Result(skip='reference not finite')
    n = total_n(args)
    res = Result()
    key = []
    for th, mode in plan:
        one = mode == 's'
        try:
            with jax.experimental.disable_x64() if one else contextlib.nullcontext():
                out = execute(f, narrow(args) if one else args, th, mode, weights=wf, **(narrow(kwargs) if one else kwargs))
                bad = compare(out, ref, n, max(tol, SINGLE_TOL) if one else tol, **mon)
        except Exception as e:
            if e.__class__.__name__ == 'CaseTimeout':
                raise
            res.runs += 1
            if allow is not None and allow(e):
                key.append('rejected')
                continue
            import traceback

            tb = traceback.extract_tb(e.__traceback__)
            loc = [f'{t.filename.split("/")[-1]}:{t.lineno}' for t in tb if 'folx' in t.filename][-2:]
            res.bad.append(f'th={th} mode={mode}: raised {type(e).__name__}: {str(e)[:160]} at {loc}')
            continue
        res.runs += 1
        res.bad += [f'th={th} mode={mode}: {b}' for b in bad]
        key.append([state_of(l) for l in lleaves(out)])
    res.key = key
    res.nontrivial = any(np.any(np.abs(J) > 1e-12) for J in ref[1])
    if succ is not None and not res.bad:
        res.succ = succ(case, ref)
    return res


def run_program(case, seed, succ=None, allow=None, tol=1e-7):
    CTX['seed'] = seed
    if 'tm' in case:
        plan = parse_tm(case['tm'])
    else:
        plan = [(th, mode) for th in case['th'] for mode in case.get('mode', 'e')]
    return run_fn(build(case), inputs(case), single(plan, case), allow=allow, tol=tol, succ=succ, case=case, must_ref=case.get('must_ref'))
