"""A NumPy evaluator for the JAX primitives that the explored executions use.

Why: the explorations run very many tiny array programs.  With the stock CPU
backend each new (primitive, shapes) pair costs ~10 ms of XLA compilation, which
limits exhaustive exploration to a few hundred executions per minute.  folx itself
is pure Python on top of JAX tracing/AD, so only the *leaf* kernels are replaced
here; every line of folx and all of JAX's tracing, batching and AD run unchanged.

Trust: this file is a substitute for XLA kernels, so (a) any primitive/dtype not
handled here falls back to the stock implementation, (b) no violation is reported
before the very same execution was repeated on the stock XLA backend in a fresh
process (see core.confirm), and (c) `selftest_npx.py` compares every kernel call of
a complete exploration with XLA.
"""

import math
import threading

import jax
import numpy as np
from jax._src import core
from jax._src.interpreters import pxla
from jax._src.lax import control_flow, lax, slicing
from jax._src import pjit as _pjit

_DEV = None
_SHARD = None
_PUT = None
COUNTS = {'np': 0, 'fallback': 0}
FALLBACK_NAMES = {}
RULES = {}
CROSSCHECK = False  # compare every kernel with XLA (selftest)


def _put(x, weak=False):
    x = np.asarray(x)
    aval = core.ShapedArray(x.shape, x.dtype, weak_type=weak)
    return pxla.batched_device_put(aval, _SHARD, [x], [_DEV])


_OK_KINDS = 'fciub'


def _ca(x):
    return np.asarray(x, order='C')  # keeps 0-d arrays 0-d


class Fallback(Exception):
    pass


class _TL(threading.local):
    depth = 0


_TLS = _TL()


class stock:
    """While active (per thread), everything runs on the stock backend."""

    def __enter__(self):
        _TLS.depth += 1

    def __exit__(self, *a):
        _TLS.depth -= 1


def _call_orig(orig, *args, **params):
    _TLS.depth += 1
    try:
        return orig(*args, **params)
    finally:
        _TLS.depth -= 1


def rule(*prims):
    def deco(f):
        for p in prims:
            RULES[p] = f
        return f

    return deco


# ------------------------------------------------------------------ elementwise
def _un(prim, f):
    def r(x, **_):
        with np.errstate(all='ignore'):
            return np.asarray(f(x)).astype(x.dtype, copy=False)

    RULES[prim] = r


def _bin(prim, f):
    def r(x, y, **_):
        with np.errstate(all='ignore'):
            return np.asarray(f(x, y)).astype(x.dtype, copy=False)

    RULES[prim] = r


def _cmp(prim, f):
    def r(x, y, **_):
        if x.dtype.kind == 'c' and f not in (np.equal, np.not_equal):
            raise Fallback
        return np.asarray(f(x, y))

    RULES[prim] = r


def _sign(x):
    if x.dtype.kind == 'c':
        a = np.abs(x)
        return np.where(a == 0, 0, x / np.where(a == 0, 1, a))
    return np.sign(x)


def _logistic(x):
    return 1 / (1 + np.exp(-x))


_un(lax.sin_p, np.sin)
_un(lax.cos_p, np.cos)
_un(lax.tan_p, np.tan)
_un(lax.tanh_p, np.tanh)
_un(lax.sinh_p, np.sinh)
_un(lax.cosh_p, np.cosh)
_un(lax.asin_p, np.arcsin)
_un(lax.acos_p, np.arccos)
_un(lax.atan_p, np.arctan)
_un(lax.asinh_p, np.arcsinh)
_un(lax.acosh_p, np.arccosh)
_un(lax.atanh_p, np.arctanh)
_un(lax.exp_p, np.exp)
_un(lax.exp2_p, np.exp2)
_un(lax.expm1_p, np.expm1)
_un(lax.log_p, np.log)
_un(lax.log1p_p, np.log1p)
_un(lax.sqrt_p, np.sqrt)
_un(lax.rsqrt_p, lambda x: 1 / np.sqrt(x))
_un(lax.cbrt_p, np.cbrt)
_un(lax.neg_p, np.negative)
_un(lax.sign_p, _sign)
_un(lax.floor_p, np.floor)
_un(lax.ceil_p, np.ceil)
_un(lax.logistic_p, _logistic)
_un(lax.not_p, np.invert)
_un(lax.conj_p, np.conj)
_bin(lax.add_p, np.add)
_bin(lax.sub_p, np.subtract)
_bin(lax.mul_p, np.multiply)
_bin(lax.max_p, np.maximum)
_bin(lax.min_p, np.minimum)
_bin(lax.atan2_p, np.arctan2)
_bin(lax.and_p, np.bitwise_and)
_bin(lax.or_p, np.bitwise_or)
_bin(lax.xor_p, np.bitwise_xor)
_cmp(lax.eq_p, np.equal)
_cmp(lax.ne_p, np.not_equal)
_cmp(lax.lt_p, np.less)
_cmp(lax.le_p, np.less_equal)
_cmp(lax.gt_p, np.greater)
_cmp(lax.ge_p, np.greater_equal)
for _p in (lax.max_p, lax.min_p, lax.floor_p, lax.ceil_p):
    _f = RULES[_p]

    def _nocomplex(*a, _f=_f, **k):
        if a[0].dtype.kind == 'c':
            raise Fallback
        return _f(*a, **k)

    RULES[_p] = _nocomplex

try:
    from scipy import special as _sp

    _un(lax.erf_p, _sp.erf)
    _un(lax.erfc_p, _sp.erfc)
except Exception:  # pragma: no cover
    pass


@rule(lax.conj_p)
def _conj(x, **_):
    if x.dtype.kind != 'c':
        return x.astype(np.complex128 if x.dtype == np.float64 else np.complex64)
    return np.conj(x)


@rule(jax._src.ad_util.add_any_p)
def _add_any(x, y, **_):
    return (x + y).astype(x.dtype, copy=False)


@rule(lax.square_p if hasattr(lax, 'square_p') else 'square')
def _square(x, **_):
    return x * x


@rule(lax.div_p)
def _div(x, y, **_):
    if x.dtype.kind in 'iu':
        if np.any(y == 0):
            raise Fallback
        q = np.abs(x) // np.abs(y) if x.dtype.kind == 'i' else x // y
        return (q * (np.sign(x) * np.sign(y))).astype(x.dtype) if x.dtype.kind == 'i' else q
    with np.errstate(all='ignore'):
        return np.asarray(x / y).astype(x.dtype, copy=False)


@rule(lax.rem_p)
def _rem(x, y, **_):
    if x.dtype.kind not in 'fiu' or (x.dtype.kind in 'iu' and np.any(y == 0)):
        raise Fallback
    with np.errstate(all='ignore'):
        return np.asarray(np.fmod(x, y)).astype(x.dtype, copy=False)


@rule(lax.integer_pow_p)
def _ipow(x, *, y):
    with np.errstate(all='ignore'):
        if x.dtype.kind in 'iu' and y < 0:
            raise Fallback
        if y < 0:
            return np.asarray(1 / (x ** (-y))).astype(x.dtype, copy=False)
        return np.asarray(x**y).astype(x.dtype, copy=False)


@rule(lax.pow_p)
def _pow(x, y, **_):
    if x.dtype.kind not in 'f' or y.dtype.kind not in 'fiu':
        raise Fallback
    with np.errstate(all='ignore'):
        return np.asarray(np.power(x, y.astype(x.dtype))).astype(x.dtype, copy=False)


@rule(lax.abs_p)
def _abs(x, **_):
    return np.abs(x)


@rule(lax.real_p)
def _real(x, **_):
    return _ca(x.real)


@rule(lax.imag_p)
def _imag(x, **_):
    return _ca(x.imag)


@rule(lax.complex_p)
def _complex(x, y, **_):
    return (x + 1j * y).astype(np.complex128 if x.dtype == np.float64 else np.complex64)


@rule(lax.is_finite_p)
def _isfinite(x, **_):
    return np.isfinite(x)


@rule(lax.select_n_p)
def _select_n(which, *cases):
    if which.dtype == np.bool_:
        return np.where(which, cases[1], cases[0]).astype(cases[0].dtype, copy=False)
    if which.ndim == 0:
        return cases[int(np.clip(which, 0, len(cases) - 1))]
    w = np.clip(which, 0, len(cases) - 1)
    return np.choose(w, cases).astype(cases[0].dtype, copy=False)


@rule(lax.clamp_p)
def _clamp(lo, x, hi, **_):
    return np.asarray(np.minimum(np.maximum(x, lo), hi)).astype(x.dtype, copy=False)


@rule(lax.convert_element_type_p)
def _convert(x, *, new_dtype, weak_type=False, sharding=None):
    new = np.dtype(new_dtype)
    if x.dtype.kind not in _OK_KINDS or new.kind not in _OK_KINDS:
        raise Fallback
    if x.dtype.kind in 'fc' and new.kind in 'iu':
        if x.dtype.kind == 'c' or not np.all(np.isfinite(x)):
            raise Fallback
    with np.errstate(all='ignore'):
        if x.dtype.kind == 'c' and new.kind in 'f':
            return x.real.astype(new)
        return x.astype(new)


@rule(lax.copy_p)
def _copy(x, **_):
    return np.array(x)


# ------------------------------------------------------------------ structural
@rule(lax.broadcast_in_dim_p)
def _bid(x, *dyn, shape, broadcast_dimensions, sharding=None):
    if dyn:
        raise Fallback
    new = [1] * len(shape)
    for i, d in enumerate(broadcast_dimensions):
        new[d] = x.shape[i]
    return _ca(np.broadcast_to(x.reshape(new), shape))


@rule(lax.reshape_p)
def _reshape(x, *dyn, new_sizes, dimensions, sharding=None):
    if dyn or dimensions is not None:
        raise Fallback
    return _ca(x.reshape(new_sizes))


@rule(lax.transpose_p)
def _transpose(x, *, permutation):
    return _ca(np.transpose(x, permutation))


@rule(lax.squeeze_p)
def _squeeze(x, *, dimensions):
    return np.squeeze(x, tuple(dimensions))


@rule(lax.concatenate_p)
def _concat(*xs, dimension):
    return np.concatenate(xs, axis=dimension)


@rule(lax.rev_p)
def _rev(x, *, dimensions):
    return _ca(np.flip(x, tuple(dimensions)))


@rule(lax.iota_p)
def _iota(*dyn, dtype, shape, dimension, sharding=None):
    if dyn:
        raise Fallback
    n = [1] * len(shape)
    n[dimension] = shape[dimension]
    return _ca(
        np.broadcast_to(np.arange(shape[dimension]).astype(dtype).reshape(n), shape)
    )


@rule(lax.pad_p)
def _pad(x, v, *, padding_config):
    if any(i != 0 or l < 0 or h < 0 for l, h, i in padding_config):
        raise Fallback
    out = np.full(
        [l + s + h for s, (l, h, _) in zip(x.shape, padding_config)], v, dtype=x.dtype
    )
    out[tuple(slice(l, l + s) for s, (l, h, _) in zip(x.shape, padding_config))] = x
    return out


@rule(slicing.slice_p)
def _slice(x, *, start_indices, limit_indices, strides):
    st = strides or (1,) * x.ndim
    return _ca(
        x[tuple(slice(a, b, c) for a, b, c in zip(start_indices, limit_indices, st))]
    )


@rule(slicing.dynamic_slice_p)
def _dslice(x, *idx, slice_sizes):
    idx = idx[: x.ndim]
    s = [
        int(min(max(int(i), 0), d - z)) for i, d, z in zip(idx, x.shape, slice_sizes)
    ]
    return _ca(
        x[tuple(slice(a, a + z) for a, z in zip(s, slice_sizes))]
    )


@rule(slicing.dynamic_update_slice_p)
def _dus(x, u, *idx):
    out = np.array(x)
    s = [int(min(max(int(i), 0), d - z)) for i, d, z in zip(idx, x.shape, u.shape)]
    out[tuple(slice(a, a + z) for a, z in zip(s, u.shape))] = u
    return out


def _fill_default(dtype):
    if dtype.kind in 'fc':
        return np.nan
    if dtype.kind == 'i':
        return np.iinfo(dtype).min
    if dtype.kind == 'u':
        return np.iinfo(dtype).max
    return True


@rule(slicing.gather_p)
def _gather(
    x,
    indices,
    *,
    dimension_numbers,
    slice_sizes,
    unique_indices=False,
    indices_are_sorted=False,
    mode=None,
    fill_value=None,
):
    dn = dimension_numbers
    GM = slicing.GatherScatterMode
    obd = tuple(getattr(dn, 'operand_batching_dims', ()))
    sbd = tuple(getattr(dn, 'start_indices_batching_dims', ()))
    if x.size == 0 or math.prod(slice_sizes) == 0:
        raise Fallback
    bshape = indices.shape[:-1]
    n = math.prod(bshape)
    idx = indices.reshape(n, indices.shape[-1]).astype(np.int64)
    start = np.zeros((n, x.ndim), dtype=np.int64)
    for i, d in enumerate(dn.start_index_map):
        start[:, d] = idx[:, i]
    if obd:
        grid = np.indices(bshape).reshape(len(bshape), n)
        for o, s in zip(obd, sbd):
            start[:, o] = grid[s]
    lim = np.array(x.shape) - np.array(slice_sizes)
    valid = np.all((start >= 0) & (start <= lim), axis=1)
    start = np.minimum(np.maximum(start, 0), lim)
    nd = x.ndim
    ix = []
    for d in range(nd):
        a = np.arange(slice_sizes[d]).reshape(
            [1] + [slice_sizes[d] if e == d else 1 for e in range(nd)]
        )
        ix.append(start[:, d].reshape([n] + [1] * nd) + a)
    out = x[tuple(ix)]  # (n, *slice_sizes)
    if mode == GM.FILL_OR_DROP or mode is None:
        fv = _fill_default(x.dtype) if fill_value is None else fill_value
        if not valid.all():
            out = np.array(out)
            out[~valid] = fv
    drop = tuple(dn.collapsed_slice_dims) + obd
    out = out.reshape(
        list(bshape) + [slice_sizes[d] for d in range(nd) if d not in drop]
    )
    offset = list(dn.offset_dims)
    rank = out.ndim
    batch_pos = [i for i in range(rank) if i not in offset]
    perm = [0] * rank
    for i, p in enumerate(batch_pos):
        perm[p] = i
    for i, p in enumerate(offset):
        perm[p] = len(bshape) + i
    return _ca(np.transpose(out, perm))


def _scatter_rule(combine):
    def r(
        x,
        indices,
        updates,
        *,
        dimension_numbers,
        indices_are_sorted=False,
        unique_indices=False,
        mode=None,
        update_jaxpr=None,
        update_consts=None,
    ):
        dn = dimension_numbers
        GM = slicing.GatherScatterMode
        obd = tuple(getattr(dn, 'operand_batching_dims', ()))
        sbd = tuple(getattr(dn, 'scatter_indices_batching_dims', ()))
        if x.size == 0 or updates.size == 0:
            return np.array(x)
        uw = list(dn.update_window_dims)
        ub = [i for i in range(updates.ndim) if i not in uw]
        upd = np.transpose(updates, ub + uw)
        bshape = upd.shape[: len(ub)]
        n = math.prod(bshape)
        idx = indices.reshape(n, indices.shape[-1]).astype(np.int64)
        start = np.zeros((n, x.ndim), dtype=np.int64)
        for i, d in enumerate(dn.scatter_dims_to_operand_dims):
            start[:, d] = idx[:, i]
        if obd:
            grid = np.indices(bshape).reshape(len(bshape), n)
            for o, s in zip(obd, sbd):
                start[:, o] = grid[s]
        ins = tuple(dn.inserted_window_dims) + obd
        sizes, it = [], iter(upd.shape[len(ub) :])
        for d in range(x.ndim):
            sizes.append(1 if d in ins else next(it))
        lim = np.array(x.shape) - np.array(sizes)
        valid = np.all((start >= 0) & (start <= lim), axis=1)
        if mode == GM.CLIP:
            start = np.minimum(np.maximum(start, 0), lim)
            valid[:] = True
        upd = upd.reshape([n] + sizes)
        nd = x.ndim
        st = start[valid]
        m = st.shape[0]
        ix = []
        for d in range(nd):
            a = np.arange(sizes[d]).reshape(
                [1] + [sizes[d] if e == d else 1 for e in range(nd)]
            )
            ix.append(st[:, d].reshape([m] + [1] * nd) + a)
        out = np.array(x)
        if m:
            ix = np.broadcast_arrays(*ix) if ix else ix
            combine(out, tuple(ix), upd[valid].astype(x.dtype, copy=False))
        return out

    return r


def _assign(out, ix, u):
    if not ix:
        out[()] = u.reshape(-1)[-1]
        return
    flat = np.ravel_multi_index(tuple(i.ravel() for i in ix), out.shape)
    o = out.reshape(-1)
    for f, v in zip(flat, u.ravel()):  # explicit order: the last update wins
        o[f] = v
    out[...] = o.reshape(out.shape)


def _at(ufunc):
    def c(out, ix, u):
        if not ix:
            for v in u.ravel():
                out[()] = ufunc(out[()], v)
            return
        ufunc.at(out, ix, u)

    return c


RULES[slicing.scatter_p] = _scatter_rule(_assign)
RULES[slicing.scatter_add_p] = _scatter_rule(_at(np.add))
RULES[slicing.scatter_mul_p] = _scatter_rule(_at(np.multiply))
RULES[slicing.scatter_min_p] = _scatter_rule(_at(np.minimum))
RULES[slicing.scatter_max_p] = _scatter_rule(_at(np.maximum))


# ------------------------------------------------------------------ reductions
@rule(lax.reduce_sum_p)
def _rsum(x, *, axes):
    return np.asarray(np.sum(x, axis=tuple(axes), dtype=x.dtype))


@rule(lax.reduce_prod_p)
def _rprod(x, *, axes):
    return np.asarray(np.prod(x, axis=tuple(axes), dtype=x.dtype))


def _minmax(f):
    def r(x, *, axes):
        if x.size == 0 or x.dtype.kind == 'c':
            raise Fallback
        return np.asarray(f(x, axis=tuple(axes))).astype(x.dtype, copy=False)

    return r


RULES[lax.reduce_max_p] = _minmax(np.max)
RULES[lax.reduce_min_p] = _minmax(np.min)


def _andor(f):
    def r(x, *, axes):
        if x.dtype != np.bool_:
            raise Fallback
        return np.asarray(f(x, axis=tuple(axes)))

    return r


RULES[lax.reduce_and_p] = _andor(np.all)
RULES[lax.reduce_or_p] = _andor(np.any)


def _argm(f):
    def r(x, *, axes, index_dtype):
        if x.dtype.kind == 'c' or (x.dtype.kind == 'f' and np.isnan(x).any()):
            raise Fallback
        return np.asarray(f(x, axis=axes[0])).astype(index_dtype)

    return r


RULES[lax.argmax_p] = _argm(np.argmax)
RULES[lax.argmin_p] = _argm(np.argmin)


def _cum(f):
    def r(x, *, axis, reverse):
        if x.dtype == np.bool_:
            raise Fallback
        if reverse:
            x = np.flip(x, axis)
        y = f(x, axis=axis, dtype=x.dtype)
        if reverse:
            y = np.flip(y, axis)
        return _ca(y)

    return r


RULES[control_flow.cumsum_p] = _cum(np.cumsum)
RULES[control_flow.cumprod_p] = _cum(np.cumprod)
RULES[control_flow.cummax_p] = _cum(np.maximum.accumulate)
RULES[control_flow.cummin_p] = _cum(np.minimum.accumulate)


@rule(lax.sort_p)
def _sort(*xs, dimension, is_stable, num_keys):
    for k in xs[:num_keys]:
        if k.dtype.kind == 'c' or (
            k.dtype.kind == 'f' and (np.isnan(k).any() or (k == 0).any())
        ):
            raise Fallback
    if num_keys == 1:
        order = np.argsort(xs[0], axis=dimension, kind='stable')
    else:
        ks = [np.moveaxis(k, dimension, -1) for k in xs[:num_keys]]
        order = np.moveaxis(np.lexsort(tuple(ks[::-1]), axis=-1), -1, dimension)
    return [np.take_along_axis(x, order, dimension) for x in xs]


@rule(lax.dot_general_p)
def _dot(x, y, *, dimension_numbers, precision=None, preferred_element_type=None, **kw):
    if any(v is not None for k, v in kw.items()):
        raise Fallback
    (lc, rc), (lb, rb) = dimension_numbers
    if x.dtype.kind not in 'fc' or y.dtype.kind not in 'fc':
        raise Fallback
    if x.dtype.itemsize < 4 or y.dtype.itemsize < 4:
        raise Fallback
    nb = len(lb)
    lf = [i for i in range(x.ndim) if i not in lc and i not in lb]
    rf = [i for i in range(y.ndim) if i not in rc and i not in rb]
    xt = np.transpose(x, list(lb) + lf + list(lc))
    yt = np.transpose(y, list(rb) + list(rc) + rf)
    bs = xt.shape[:nb]
    lfs = [x.shape[i] for i in lf]
    rfs = [y.shape[i] for i in rf]
    c = math.prod(x.shape[i] for i in lc)
    xt = xt.reshape((*bs, math.prod(lfs), c))
    yt = yt.reshape(*bs, c, math.prod(rfs))
    out = np.matmul(xt, yt).reshape((*bs, *lfs, *rfs))
    if preferred_element_type is not None:
        out = out.astype(preferred_element_type, copy=False)
    return _ca(out)


# ------------------------------------------------------------------ jaxpr interpreter
_UNSUP = object()


def _to_np(x):
    return np.asarray(x)


def _is_np_able(x):
    d = getattr(x, 'dtype', None)
    if d is None:
        return isinstance(x, (bool, int, float, complex))
    return getattr(d, 'kind', 'V') in _OK_KINDS


def eval_np(jaxpr, consts, args):
    """Evaluate a jaxpr; values are numpy arrays (or opaque jax values)."""
    env = {}

    def read(v):
        if type(v) is core.Literal:
            return np.asarray(v.val, dtype=v.aval.dtype) if _is_np_able(v.val) else v.val
        return env[v]

    for v, c in zip(jaxpr.constvars, consts):
        env[v] = _to_np(c) if _is_np_able(c) else c
    for v, a in zip(jaxpr.invars, args):
        env[v] = a
    for eqn in jaxpr.eqns:
        ins = [read(v) for v in eqn.invars]
        outs = eval_eqn(eqn, ins)
        for v, o in zip(eqn.outvars, outs):
            env[v] = o
    return [read(v) for v in jaxpr.outvars]


def _closed(cj, args):
    return eval_np(cj.jaxpr, cj.consts, args)


def eval_eqn(eqn, ins):
    p = eqn.primitive
    params = eqn.params
    name = p.name
    if name == 'pjit':
        return _closed(params['jaxpr'], ins)
    if name == 'closed_call' or name == 'core_call':
        return _closed(params['call_jaxpr'], ins)
    if name == 'custom_jvp_call':
        return _closed(params['call_jaxpr'], ins)
    if name == 'custom_vjp_call_jaxpr':
        return _closed(params['fun_jaxpr'], ins)
    if name == 'remat2' or name == 'checkpoint':
        return eval_np(params['jaxpr'], (), ins)
    if name == 'cond':
        br = params['branches']
        i = int(np.clip(int(ins[0]), 0, len(br) - 1))
        return _closed(br[i], ins[1:])
    if name == 'scan':
        return _scan(ins, params)
    if name == 'while':
        return _while(ins, params)
    r = RULES.get(p)
    if r is not None and all(isinstance(x, (np.ndarray, np.generic)) for x in ins):
        try:
            out = r(*[np.asarray(x) for x in ins], **params)
            COUNTS['np'] += 1
            if p.multiple_results:
                return list(out)
            return [out]
        except Fallback:
            pass
    COUNTS['fallback'] += 1
    FALLBACK_NAMES[name] = FALLBACK_NAMES.get(name, 0) + 1
    subfuns, bp = p.get_bind_params(params)
    jins = [
        _put(x, getattr(v.aval, 'weak_type', False))
        if isinstance(x, (np.ndarray, np.generic))
        else x
        for x, v in zip(ins, eqn.invars)
    ]
    _TLS.depth += 1
    try:
        out = p.bind(*subfuns, *jins, **bp)
    finally:
        _TLS.depth -= 1
    outs = out if p.multiple_results else [out]
    return [_to_np(o) if _is_np_able(o) else o for o in outs]


def _scan(ins, params):
    nc, nk, length = params['num_consts'], params['num_carry'], params['length']
    cj = params['jaxpr']
    consts, carry, xs = ins[:nc], ins[nc : nc + nk], ins[nc + nk :]
    order = range(length)
    if params['reverse']:
        order = range(length - 1, -1, -1)
    ys = [None] * length
    for i in order:
        out = _closed(cj, [*consts, *carry, *[np.asarray(x[i]) for x in xs]])
        carry, ys[i] = out[:nk], out[nk:]
    stacked = []
    for j, av in enumerate(cj.out_avals[nk:]):
        if length == 0:
            stacked.append(np.zeros((0, *av.shape), av.dtype))
        else:
            stacked.append(np.stack([y[j] for y in ys]))
    return [*carry, *stacked]


def _while(ins, params):
    cn, bn = params['cond_nconsts'], params['body_nconsts']
    cc, bc, carry = ins[:cn], ins[cn : cn + bn], ins[cn + bn :]
    n = 0
    while True:
        (p,) = _closed(params['cond_jaxpr'], [*cc, *carry])
        if not bool(p):
            return list(carry)
        carry = _closed(params['body_jaxpr'], [*bc, *carry])
        n += 1
        if n > 10000:
            raise RuntimeError('while loop does not terminate')


# ------------------------------------------------------------------ installation
# primitives whose operands (from the given position on) must agree in dtype; the
# stock implementation rejects mixtures, so such calls are handed to it
_SAME = {
    p: sl
    for ps, sl in (
        (
            (lax.add_p, lax.sub_p, lax.mul_p, lax.div_p, lax.rem_p, lax.max_p,
             lax.min_p, lax.atan2_p, lax.and_p, lax.or_p, lax.xor_p, lax.eq_p,
             lax.ne_p, lax.lt_p, lax.le_p, lax.gt_p, lax.ge_p, lax.clamp_p,
             lax.concatenate_p, lax.pad_p, lax.dot_general_p, lax.complex_p),
            lambda a: a,
        ),
        ((lax.select_n_p,), lambda a: a[1:]),
        ((slicing.dynamic_update_slice_p,), lambda a: a[:2]),
        (
            (slicing.scatter_p, slicing.scatter_add_p, slicing.scatter_mul_p,
             slicing.scatter_min_p, slicing.scatter_max_p),
            lambda a: (a[0], a[2]),
        ),
    )
    for p in ps
}
_SHAPES = {
    lax.add_p, lax.sub_p, lax.mul_p, lax.div_p, lax.rem_p, lax.max_p, lax.min_p,
    lax.atan2_p, lax.and_p, lax.or_p, lax.xor_p, lax.eq_p, lax.ne_p, lax.lt_p,
    lax.le_p, lax.gt_p, lax.ge_p, lax.complex_p,
}


def _acceptable(p, nargs):
    sel = _SAME.get(p)
    if sel is not None:
        a = sel(nargs)
        if any(x.dtype != a[0].dtype for x in a[1:]):
            return False
    if p in _SHAPES:
        a, b = nargs[0].shape, nargs[1].shape
        if a and b and a != b:
            if len(a) != len(b) or any(i != j and 1 not in (i, j) for i, j in zip(a, b)):
                return False
    return True


_ORIG = {}
_INSTALLED = False


def _weak(args):
    return any(getattr(getattr(a, 'aval', None), 'weak_type', False) for a in args) or any(
        type(a) in (bool, int, float, complex) for a in args
    )


def _np_args(args):
    out = []
    for a in args:
        if isinstance(a, jax.Array):
            if getattr(a.dtype, 'kind', 'V') not in _OK_KINDS or a.dtype.itemsize == 2 and a.dtype.kind == 'f':
                return None
            out.append(np.asarray(a))
        elif isinstance(a, (np.ndarray, np.generic)):
            if a.dtype.kind not in _OK_KINDS or a.dtype.itemsize == 2 and a.dtype.kind == 'f':
                return None
            out.append(np.asarray(a))
        elif type(a) in (bool, int, float, complex):
            dt = jax.dtypes.canonicalize_dtype(jax.dtypes.result_type(a))
            out.append(np.asarray(a, dtype=dt))
        else:
            return None
    return out


def _make_impl(p, r, orig):
    def impl(*args, **params):
        nargs = None if _TLS.depth else _np_args(args)
        if nargs is None:
            return _call_orig(orig, *args, **params)
        # numpy inputs must be canonicalised as JAX does it
        nargs = [
            x.astype(jax.dtypes.canonicalize_dtype(x.dtype), copy=False) for x in nargs
        ]
        try:
            if not _acceptable(p, nargs):
                raise Fallback
            out = r(*nargs, **params)
        except Fallback:
            COUNTS['fallback'] += 1
            FALLBACK_NAMES[p.name] = FALLBACK_NAMES.get(p.name, 0) + 1
            return _call_orig(orig, *args, **params)
        COUNTS['np'] += 1
        if p is lax.convert_element_type_p:
            weak = [bool(params.get('weak_type'))]
        elif args and _weak(args):
            avals = [core.raise_to_shaped(core.get_aval(a)) for a in args]
            ev, _ = p.abstract_eval(*avals, **params)
            weak = (
                [e.weak_type for e in ev] if p.multiple_results else [ev.weak_type]
            )
        else:
            weak = None
        if CROSSCHECK:
            _cross(p, _call_orig(orig, *args, **params), out)
        if p.multiple_results:
            return [_put(o, weak[i] if weak else False) for i, o in enumerate(out)]
        return _put(out, weak[0] if weak else False)

    return impl


def _cross(p, a, b):
    al, bl = (a, b) if p.multiple_results else ([a], [b])
    for x, y in zip(al, bl):
        x = np.asarray(x)
        y = np.asarray(y)
        assert x.shape == y.shape and x.dtype == y.dtype, (p, x.shape, y.shape, x.dtype, y.dtype)
        if not np.allclose(x, y, rtol=1e-5 if x.dtype.itemsize <= 4 or x.dtype == np.complex64 else 1e-10, atol=1e-300, equal_nan=True):
            raise AssertionError(f'kernel mismatch {p}: {x} {y}')


_CALLS = {
    'pjit', 'closed_call', 'core_call', 'custom_jvp_call', 'custom_vjp_call_jaxpr',
    'remat2', 'checkpoint', 'cond', 'scan', 'while',
}


def _handled(p):
    return p in RULES or p.name in _CALLS


def _pjit_impl(*args, jaxpr, **kw):
    eqns = jaxpr.jaxpr.eqns
    if _TLS.depth or len(eqns) == 1 and not _handled(eqns[0].primitive):
        return _call_orig(_ORIG['pjit'], *args, jaxpr=jaxpr, **kw)
    nargs = _np_args(args)
    avals = jaxpr.in_avals
    if nargs is None or any(
        getattr(a.dtype, 'kind', 'V') not in _OK_KINDS for a in jaxpr.out_avals
    ):
        return _call_orig(_ORIG['pjit'], *args, jaxpr=jaxpr, **kw)
    nargs = [x.astype(a.dtype, copy=False) for x, a in zip(nargs, avals)]
    outs = eval_np(jaxpr.jaxpr, jaxpr.consts, nargs)
    return [
        _put(np.asarray(o).astype(a.dtype, copy=False), a.weak_type)
        if isinstance(o, (np.ndarray, np.generic))
        else o
        for o, a in zip(outs, jaxpr.out_avals)
    ]


def _loop_impl(p, fn):
    orig = p.impl

    def impl(*args, **params):
        nargs = None if _TLS.depth else _np_args(args)
        if nargs is None:
            return _call_orig(orig, *args, **params)
        outs = fn(nargs, params)
        return [_put(o) for o in outs]

    return impl


def install():
    global _DEV, _SHARD, _INSTALLED
    if _INSTALLED:
        return
    _INSTALLED = True
    _DEV = jax.devices('cpu')[0]
    _SHARD = jax.sharding.SingleDeviceSharding(_DEV)
    for p, r in RULES.items():
        if isinstance(p, str):
            continue
        _ORIG[p] = p.impl
        p.impl = _make_impl(p, r, p.impl)
    _ORIG['pjit'] = _pjit.pjit_p.impl
    _pjit.pjit_p.impl = _pjit_impl
    control_flow.scan_p.impl = _loop_impl(control_flow.scan_p, _scan)
    control_flow.while_p.impl = _loop_impl(control_flow.while_p, _while)

    def cond_impl(*args, **params):
        nargs = None if _TLS.depth else _np_args(args)
        if nargs is None:
            return _call_orig(_ORIG['cond'], *args, **params)
        br = params['branches']
        i = int(np.clip(int(nargs[0]), 0, len(br) - 1))
        return [_put(o) for o in _closed(br[i], nargs[1:])]

    cp = control_flow.conditionals.cond_p
    _ORIG['cond'] = cp.impl
    cp.impl = cond_impl
