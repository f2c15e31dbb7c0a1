"""Rule registry: all histories of registrations against a map model."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import prog
from core import Result
from folx import deregister_function, forward_laplacian, register_function, wrap_forward_laplacian
from folx.api import FwdJacobian, FwdLaplArray
from jax import core
from jax.interpreters import ad, batching
from prog import CTX

BOUNDS = dict(
    quick='5 keys (built-in primitive, primitive without rule, user primitive with two results, user function, built-in function) x {register exact rule, register marked rule, register failing rule, register one rule object shared by several operations, deregister}: all words of length <= 2, all words of length 3 over four groups of keys and three or four of the actions, closure of the state space for two pairs of keys; observed after the first and the last step',
    thorough='all words of length 3 over all 24 actions and the closure of the state space for all triples of keys (merged by model state)',
)
CHUNK = 8
KEYS = ['sin', 'erf', 'dup', 'uf', 'silu']
DEFAULT = {'sin', 'silu'}


# --- the operations -------------------------------------------------------------------
dup_p = core.Primitive('mc_dup')
dup_p.multiple_results = True


def _dup_impl(x):
    return [jnp.cos(x), x * x]


dup_p.def_impl(_dup_impl)
dup_p.def_abstract_eval(lambda x: [core.ShapedArray(x.shape, x.dtype)] * 2)


def _dup_jvp(primals, tangents):
    (x,), (t,) = primals, tangents
    y = dup_p.bind(x)
    t = ad.instantiate_zeros(t)
    return y, [-jnp.sin(x) * t, 2 * x * t]


ad.primitive_jvps[dup_p] = _dup_jvp
batching.primitive_batchers[dup_p] = lambda a, d: (dup_p.bind(*a), [d[0]] * 2)
from jax.interpreters import mlir

mlir.register_lowering(dup_p, mlir.lower_fun(_dup_impl, multiple_results=True))


@jax.jit
def mc_uf(x, k):
    return jnp.sin(x) * k + x


REG = {'sin': jax.lax.sin_p, 'erf': jax.lax.erf_p, 'dup': dup_p, 'uf': 'mc_uf', 'silu': 'silu'}


class RuleFailure(RuntimeError):
    pass


LOG = []


_TRIPLE = wrap_forward_laplacian(lambda x: 3.0 * x, in_axes=())


def shared(args, kwargs, sparsity_threshold):
    # one rule that is registered for several operations
    LOG.append('shared')
    return _TRIPLE(tuple(args[:1]), {}, sparsity_threshold=sparsity_threshold)


def rule(key, tag):
    if tag == 'S':
        return shared
    base = {
        'sin': wrap_forward_laplacian(jax.lax.sin, in_axes=()),
        'erf': wrap_forward_laplacian(jax.lax.erf, in_axes=()),
        'dup': wrap_forward_laplacian(dup_p.bind),
        'uf': wrap_forward_laplacian(lambda x, k: jnp.sin(x) * k + x, in_axes=()),
        'silu': wrap_forward_laplacian(lambda x: x * jax.lax.logistic(x), in_axes=()),
    }[key]

    def new(args, kwargs, sparsity_threshold):
        LOG.append((key, tag))
        if tag == 'R':
            raise RuleFailure(key)
        out = base(args, kwargs, sparsity_threshold=sparsity_threshold)
        if tag == 'A':
            return out
        two = (lambda o: FwdLaplArray(2 * o.x, FwdJacobian(2 * o.jacobian.data, o.jacobian.x0_idx), 2 * o.laplacian) if isinstance(o, FwdLaplArray) else 2 * o)
        return [two(o) for o in out] if isinstance(out, (list, tuple)) and not isinstance(out, FwdLaplArray) else two(out)

    return new


def program(ops, part):
    """ops: key -> function (the real operations, or the reference with marks)"""
    k = prog.c(2)

    def f(x):
        if part == 0:
            d = ops['dup'](x)
            return [
                ops['sin'](x), ops['erf'](x * 1.1), ops['uf'](x, k), ops['silu'](x), d[0] + d[1] * 0.5,
                ops['sin'](k) + x, ops['uf'](k, k) * x, jnp.exp(x), jax.nn.sigmoid(x),
            ]
        d = ops['dup'](ops['silu'](x))
        return [
            jax.jit(lambda z: ops['uf'](ops['sin'](z), k).sum())(x), d[0].sum(), jax.vmap(ops['sin'])(x),
            jax.lax.scan(lambda h, a: (ops['sin'](h) * a, ops['erf'](h)), jnp.cumsum(x) @ jnp.ones((2, 2)), k)[1],
        ]

    return f


REAL = dict(sin=jnp.sin, erf=jax.lax.erf, dup=lambda x: dup_p.bind(x), uf=mc_uf, silu=jax.nn.silu)


def reference_ops(state):
    """The exact functions, scaled where a marked rule is registered (only for dependent operands)."""
    dep = lambda x: isinstance(x, core.Tracer)
    s = lambda k, x: 2.0 if state[k] == 'B' and dep(x) else 1.0
    v = lambda k, x, exact: 3.0 * x if state[k] == 'S' and dep(x) else exact * s(k, x)
    sin = lambda x: v('sin', x, jnp.sin(x))

    def uf(x, k):
        if state['uf'] is None:
            return sin(x) * k + x  # the body, seen by the rules of its operations
        return v('uf', x, jnp.sin(x) * k + x)

    return dict(
        sin=sin, erf=lambda x: v('erf', x, jax.lax.erf(x)), uf=uf, silu=lambda x: v('silu', x, x * jax.lax.logistic(x)),
        dup=lambda x: [a * s('dup', x) for a in (jnp.cos(x), x * x)],
    )


def fresh():
    return {k: 'default' if k in DEFAULT else None for k in KEYS}


# A: exact rule, B: doubled rule, R: failing rule, D: deregister, S: a rule object shared by all operations
ACTIONS = [(k, a) for k in KEYS for a in 'ABRDS' if (k, a) != ('dup', 'S')]


def step_model(state, act):
    k, a = act
    if a == 'D':
        if state[k] is None:
            return state, True
        return {**state, k: None}, False
    return {**state, k: a}, False


def roots(tier):
    tms = ['0e', '100e', '2j', '0j', '1e']
    i = 0

    def case(wd, mid=False):
        nonlocal i
        i += 1
        return dict(word=list(wd), tm=tms[i % 5], part=i // 5 % 2, mid=mid)

    for n in (1, 2):
        for wd in itertools.product(range(len(ACTIONS)), repeat=n):
            for p in (0, 1) if n == 1 or tier == 'thorough' else (0,):
                yield case(wd, True)
    if tier == 'thorough':
        for wd in itertools.product(range(len(ACTIONS)), repeat=3):
            yield case(wd, True)
    else:
        for t, acts in ((('sin', 'uf'), 'BSD'), (('erf', 'dup'), 'ABD'), (('silu', 'uf'), 'ABD'), (('sin', 'silu', 'erf'), 'SD')):
            al = [j for j, (k, a) in enumerate(ACTIONS) if k in t and a in acts]
            for wd in itertools.product(al, repeat=3):
                yield case(wd, i % 3 == 0)
    # closure of the model state space: every transition out of every reachable state,
    # each state reached by a shortest word
    groups = [('sin', 'uf'), ('silu', 'dup')] if tier == 'quick' else list(itertools.combinations(KEYS, 3))
    for g in groups:
        al = [j for j, (k, a) in enumerate(ACTIONS) if k in g]
        seen = {tuple(fresh().values()): []}
        todo = [fresh()]
        while todo:
            st = todo.pop(0)
            wd = seen[tuple(st.values())]
            for j in al:
                nx, _ = step_model(st, ACTIONS[j])
                yield case(wd + [j])
                if tuple(nx.values()) not in seen:
                    seen[tuple(nx.values())] = wd + [j]
                    todo.append(nx)


_REF = {}


def reference(state, x, part):
    key = (part,) + tuple(v if v in ('B', 'S') else (v is None) for v in state.values())
    if key not in _REF:
        _REF[key] = prog.reference(program(reference_ops(state), part), (x,))
    return _REF[key]


def observe(fl, x, state, part, n=2):
    """Evaluate and compare with the model; returns messages."""
    del LOG[:]
    exc = None
    try:
        out = fl(x)
    except RuleFailure as e:
        exc = e
    except Exception as e:
        if e.__class__.__name__ == 'CaseTimeout':
            raise
        return [f'raised {type(e).__name__}: {str(e)[:160]}']
    log = set(LOG)
    failing = [k for k in KEYS if state[k] == 'R']
    if failing:
        if exc is None:
            return [f'the error of the rule of {failing} was not passed on']
        return [] if exc.args and exc.args[0] in failing else [f'unexpected failure {exc!r}']
    if exc is not None:
        return [f'a rule failed that is not registered: {exc!r}']
    n_shared = 'shared' in log
    log.discard('shared')
    if n_shared != ('S' in state.values()):
        return [f'shared rule used: {n_shared}']
    want = {(k, v) for k, v in state.items() if v in ('A', 'B')}
    if log != want:
        return [f'rules used: {sorted(log)}, registered: {sorted(want)}']
    return prog.compare(out, reference(state, x, part), n)


def run(case, seed, tier):
    CTX['seed'] = seed
    x = prog.inp((2,), 1)
    part = case['part']
    ((th, mode),) = prog.parse_tm([case['tm']])
    res = Result()
    f = program(REAL, part)
    fixed = forward_laplacian(f, th, disable_jit=True)  # one object for the whole history
    state = fresh()
    trace = []
    defaults = {}
    import folx.wrapped_functions as wf

    for k in DEFAULT:
        defaults[k] = wf.get_laplacian(REG[k])
    try:
        for i, a in enumerate(case['word']):
            k, what = ACTIONS[a]
            nxt, fails = step_model(state, (k, what))
            trace.append(f'{what}:{k}')
            try:
                if what == 'D':
                    deregister_function(REG[k])
                else:
                    register_function(REG[k], rule(k, what))
                if fails:
                    res.bad.append(f'{trace}: deregistering something unregistered did not fail')
            except Exception as e:
                if e.__class__.__name__ == 'CaseTimeout':
                    raise
                if not fails:
                    res.bad.append(f'{trace}: raised {type(e).__name__}: {e}')
            state = nxt
            last = i == len(case['word']) - 1
            if last or (i == 0 and case.get('mid')):
                fl = fixed if mode == 'e' else forward_laplacian(program(REAL, part), th)
                res.bad += [f'{trace} th={th} mode={mode}: {b}' for b in observe(fl, x, state, part)]
                res.runs += 1
            if res.bad:
                break
        # no rule may have been added by the evaluations
        if not res.bad:
            for k in KEYS:
                if bool(wf.is_registered(REG[k])) != (state[k] is not None):
                    res.bad.append(f'{trace}: {k} registered: {wf.is_registered(REG[k])}, expected {state[k]}')
            if wf.is_registered('mc_none') or wf.is_registered(jax.lax.lgamma_p):
                res.bad.append(f'{trace}: unrelated registrations appeared')
    finally:
        for k in KEYS:
            if k in DEFAULT:
                register_function(REG[k], defaults[k])
            elif wf.is_registered(REG[k]):
                deregister_function(REG[k])
    if not res.bad:
        # the restored registry behaves as in the beginning
        if len(case['word']) == 1:
            res.bad += [f'{trace} restored: {b}' for b in observe(fixed, x, fresh(), part)]
            res.runs += 1
    res.key = [list(state.values()), th, mode, part]
    return res
