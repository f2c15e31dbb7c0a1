"""All interleavings, up to a preemption bound, of threads that use the library at the same time."""
import hashlib
import io
import json
import logging
import sys
import threading

import jax
import jax.numpy as jnp
import numpy as np
import sched
from core import Result
from jax import core, lax
from jax.interpreters import ad, batching, mlir

import folx
from folx import ForwardLaplacianOperator, batched_vmap, deregister_function, forward_laplacian, register_function
from folx.api import FwdJacobian, FwdLaplArray
from folx.experimental.memory import compute_memory

BOUNDS = dict(
    quick='2 threads, 25 pairs of operations, both starting orders: every preemption at a line that touches process-wide state (bound 1; for 5 pairs at the first execution of every executed line of the library), every pair of such preemptions (bound 2) for 6 pairs; 3 threads for 3 triples and 3 orders with bound 1; root logger with and without handlers',
    thorough='as quick: bound 1 at the first and last execution of every line for all pairs, bound 2 at lines that touch process-wide state for all pairs, bound 3 for one, 10 triples',
)
CHUNK = 24
LIB = None
X = np.array([0.7, 1.3])
Y = np.array([[0.4, 1.1], [0.9, 1.7]])


# ---- operations -----------------------------------------------------------------------
FAILS = threading.local()


def _hard():
    p = core.Primitive('mc21_hard')

    def run(x):
        # fails ahead of time, succeeds when evaluated again
        FAILS.n = getattr(FAILS, 'n', 0) + 1
        if FAILS.n % 2:
            raise RuntimeError('cannot be evaluated ahead of time')
        return x * x

    p.def_impl(run)
    p.def_abstract_eval(lambda x: core.ShapedArray(x.shape, x.dtype))
    mlir.register_lowering(p, mlir.lower_fun(lambda x: x * x, multiple_results=False))
    return p


hard_p = _hard()
no_jvp_p = core.Primitive('mc21_no_jvp')
no_jvp_p.def_impl(lambda x: x)
no_jvp_p.def_abstract_eval(lambda x: core.ShapedArray(x.shape, x.dtype))
mlir.register_lowering(no_jvp_p, mlir.lower_fun(lambda x: x + 0, multiple_results=False))


def show(r):
    out = []
    for q in jax.tree_util.tree_leaves(r, is_leaf=lambda q: isinstance(q, FwdLaplArray)):
        if isinstance(q, FwdLaplArray):
            # the storage is part of the comparison with the lone execution
            idx = q.jacobian.x0_idx
            out += [q.x, q.jacobian.dense_array, q.laplacian, q.jacobian.data, -2 if idx is None else idx]
        else:
            out.append(q)
    return [np.asarray(q).round(10).tolist() for q in out]


def lap(f, th, *a, **kw):
    return lambda: show(forward_laplacian(lambda *q: f(*q), sparsity_threshold=th)(*a, **kw))


def tiny(x):
    return jnp.sin(x)


def neg(x):
    return -x


def sq(x):
    return (x * x).sum()


def mat(x, y):
    return (y @ jnp.tanh(x))[0] * x[1]


def nested(x):
    return jax.jit(lambda q: jnp.exp(q) * x)(x * 2)


def bad_op(x):
    return no_jvp_p.bind(x * 2)


def bad_user(x):
    raise LookupError('user error')


def body_bad_user():
    return show(forward_laplacian(lambda x: jnp.cos(x) * jax.jit(lambda q: bad_reg(q))(x), 0)(X))


def bad_reg(q):
    return q + 1


def warn(x):
    return x * hard_p.bind(jnp.asarray([0.5, 2.0]))


def mem():
    return compute_memory(lambda x: (x @ x).sum() * jnp.exp(x[0]), Y)


def mem2():
    return compute_memory(lambda x: lax.scan(lambda c, y: (c + y, None), x[0], x)[0], Y)


def mem_bad():
    return compute_memory(bad_user, X)


def printing():
    for i in range(3):
        print('line', i)
    return [3]


def make_rule(w):
    def rule(args, kwargs, sparsity_threshold=0):
        (a,) = args
        return FwdLaplArray(w * a.x, FwdJacobian(w * a.jacobian.data, a.jacobian.x0_idx), w * a.laplacian)

    return rule


def registering(name, w):
    def body():
        def fn(x):
            return x * 0

        fn.__name__ = fn.__qualname__ = name
        g = jax.jit(fn)
        register_function(name, make_rule(w))
        a = show(forward_laplacian(lambda x: g(x) + x, 6)(X))
        deregister_function(name)
        b = show(forward_laplacian(lambda x: jax.jit(fn)(x) + x, 6)(X))
        return [a, b]

    return body


@jax.jit
def mc21_named(x):
    return x * 5


def using_rule(k):
    # a rule that was registered before the threads started
    return lambda: show(forward_laplacian(lambda x: mc21_named(jnp.sin(x) * k) + jax.nn.silu(x), 6)(X))


def looping():
    return show(forward_laplacian(lambda x: lax.scan(lambda c, a: (c * a, c), x, jnp.arange(1.0, 3.0)), 2)(X))


def determinant():
    return show(forward_laplacian(lambda x: jnp.linalg.slogdet(Y * x)[1], 2)(X))


def dereg_bad():
    deregister_function('mc21_unknown')


def registering_only(name, w):
    def body():
        register_function(name, make_rule(w))
        return [1]

    return body


def operator():
    return show(ForwardLaplacianOperator(2)(lambda x: jnp.sin(x[0]) * x[1])(X))


def batched():
    return show(batched_vmap(lambda x, y: jnp.sin(x) * y, 2, in_axes=(0, None))(np.arange(5.0), X))


def logging_user():
    logging.getLogger('user').warning('hello')
    return [1]


def catching(f):
    def body():
        try:
            f()
        except Exception as e:
            return ['caught', type(e).__name__]

    return body


def eager(f):
    def body():
        with jax.disable_jit():
            return f()

    return body


OPS = dict(
    neg=lambda: lap(neg, 0, X)(), tiny=lambda: lap(tiny, 0, X)(), tinys=lambda: lap(tiny, 6, X)(), sq=lambda: lap(sq, 6, X)(), mat=lambda: lap(mat, 0, X, Y)(),
    esq=eager(lap(sq, 6, X)), weights=lambda: lap(sq, 6, X, weights=(2.0,))(), nested=lambda: lap(nested, 1, X)(),
    badop=lambda: lap(bad_op, 0, X)(), baduser=lambda: lap(bad_user, 0, X)(), caught=catching(lambda: lap(bad_op, 6, X)()),
    warn=eager(lap(warn, 6, X)), mem=mem, mem2=mem2, membad=mem_bad, print=printing,
    rega=registering('mc21_a', 2.0), regb=registering('mc21_b', 3.0), only=registering_only('mc21_c', 1.0), deregbad=dereg_bad,
    operator=operator, batched=batched, user=logging_user, named=using_rule(1.0), named2=using_rule(2.0), loop=looping, det=determinant,
)
PAIRS = [
    ('neg', 'neg'), ('tiny', 'tinys'), ('sq', 'mat'), ('neg', 'badop'), ('badop', 'badop'), ('caught', 'tinys'), ('baduser', 'tiny'),
    ('esq', 'neg'), ('warn', 'neg'), ('warn', 'warn'), ('mem', 'print'), ('mem', 'mem2'), ('membad', 'mem'), ('neg', 'mem'), ('rega', 'tiny'),
    ('rega', 'regb'), ('rega', 'deregbad'), ('only', 'rega'), ('operator', 'weights'), ('batched', 'neg'), ('nested', 'sq'), ('badop', 'user'),
    ('named', 'named2'), ('named', 'rega'), ('loop', 'det'),
]
EVERY = [('tiny', 'tinys'), ('neg', 'badop'), ('mem', 'mem2'), ('warn', 'neg'), ('batched', 'neg')]  # all lines, not only shared state
TWO = [('neg', 'neg'), ('neg', 'badop'), ('warn', 'neg'), ('mem', 'print'), ('only', 'rega'), ('baduser', 'tiny')]
TRIPLES = [('neg', 'neg', 'neg'), ('neg', 'badop', 'tiny'), ('mem', 'neg', 'print')]
TRIPLES_T = TRIPLES + [
    ('rega', 'regb', 'tiny'), ('warn', 'warn', 'warn'), ('badop', 'badop', 'badop'), ('caught', 'tiny', 'user'),
    ('mem', 'mem2', 'membad'), ('only', 'rega', 'regb'), ('batched', 'operator', 'tiny'),
]


def roots(tier):
    thorough = tier == 'thorough'
    for p in PAIRS:
        every = 1 if thorough or p in EVERY else 0
        bound = 1 if p not in TWO else 2
        if thorough:
            bound = 3 if p == ('neg', 'neg') else 2
        for order in ([0, 1], [1, 0]):
            for h in (0, 1) if 'badop' in p or 'warn' in p or p == ('neg', 'neg') else (1,):
                yield dict(ops=p, order=order, handlers=h, pre=[], every=every, bound=bound if h or thorough else 1)
    for p in TRIPLES_T if thorough else TRIPLES:
        for order in ([0, 1, 2], [2, 0, 1], [1, 2, 0]):
            yield dict(ops=p, order=order, handlers=1, pre=[], every=0, bound=2 if thorough and p == ('neg',) * 3 else 1)


def MAX_LEVEL(tier):
    return 3


def setup():
    global LIB
    if LIB is None:
        register_function('mc21_named', make_rule(2.0))
        LIB = sched.Library('folx')
        sched.control_logging()
        LIB.critical.update(f.__code__ for f in (printing,))


class Handler(logging.Handler):
    def emit(self, record):
        pass


ALONE = {}


def process(handlers):
    """installs a known process state, returns a function that compares it"""
    root = logging.getLogger()
    old = (root.handlers, root.level, sys.stdout, sys.stderr)
    mine = [Handler()] if handlers else []
    root.handlers = mine
    root.setLevel(logging.WARNING)
    before = list(mine)
    so, se = io.StringIO(), io.StringIO()
    sys.stdout, sys.stderr = so, se
    state = LIB.registries()

    def check():
        bad = []
        if root.handlers is not mine and list(root.handlers) != before:
            bad.append(f'handlers of the root logger changed: {root.handlers} instead of {before}')
        elif list(root.handlers) != before:
            bad.append(f'handlers of the root logger changed in place: {root.handlers}')
        if root.level != logging.WARNING:
            bad.append(f'level of the root logger changed to {root.level}')
        if sys.stdout is not so:
            bad.append('sys.stdout was replaced')
        if sys.stderr is not se:
            bad.append('sys.stderr was replaced')
        return bad, so.getvalue()

    def restore():
        root.handlers, sys.stdout, sys.stderr = old[0], old[2], old[3]
        root.setLevel(old[1])

    return check, restore


def registered():
    import folx.wrapped_functions as w

    return sorted(n for n in ('mc21_a', 'mc21_b', 'mc21_c', 'mc21_unknown') if w.is_registered(n)) if hasattr(w, 'is_registered') else []


def execute(case):
    LIB.reset()
    check, restore = process(case['handlers'])
    try:
        stock = 'npx' not in sys.modules
        s = sched.Sched(
            LIB, [OPS[o] for o in case['ops']], case['order'], case['pre'], files=(__file__,),
            patience=20.0 if stock else 2.0, deadline=60.0 if stock else 20.0,
        ).run()
        bad, printed = check()
        return s, bad, printed, registered()
    finally:
        restore()
        LIB.reset()


def alone(op, handlers):
    if (op, handlers) not in ALONE:
        s, bad, printed, reg = execute(dict(ops=[op], order=[0], handlers=handlers, pre=[]))
        # a second time: nothing remains of the first
        s2, bad2, printed2, _ = execute(dict(ops=[op], order=[0], handlers=handlers, pre=[]))
        if s.result != s2.result:
            bad = bad + [f'repetition differs: {s.result} {s2.result}']
        ALONE[op, handlers] = (s.result[0], bad, sorted(printed.split('\n')), reg)
    return ALONE[op, handlers]


def run(case, seed, tier):
    setup()
    bad, expected, lines, regs = [], [], [], []
    for o in case['ops']:
        r, b, p, g = alone(o, case['handlers'])
        bad += [f'{o} alone: {q}' for q in b]
        expected.append(r)
        lines += [q for q in p if q]
        regs += g
    s, b, printed, reg = execute(case)
    bad += b
    if s.aborted:
        bad.append(s.aborted)
    else:
        for t, (o, want, got) in enumerate(zip(case['ops'], expected, s.result)):
            if got != want:
                bad.append(f'thread {t} ({o}): {str(got)[:200]} instead of {str(want)[:200]}')
        if sorted(q for q in printed.split('\n') if q) != sorted(lines):
            bad.append(f'standard output lost or changed: {printed!r}')
        if reg != sorted(set(regs)):
            bad.append(f'registered at the end: {reg} instead of {sorted(set(regs))}')
    if bad:
        bad.append(f'schedule {case["pre"]} at ' + '; '.join(
            f'{tr[3][0].split("/")[-1]}:{tr[3][1]}' for p in case['pre'] for tr in s.trace if tr[0] == p[0] and tr[1] == p[1]
        ))
    level = len(case['pre'])
    succ = []
    if not s.aborted and s.used == level and level < case['bound']:
        # new preemptions only behind the last one
        last = -1
        if level:
            t, k, _ = case['pre'][-1]
            last = max(i for i, tr in enumerate(s.trace) if tr[0] == t and tr[1] == k)
        every = case['every'] and level == 0
        # lines without shared state commute with the other threads: only their first (and last) execution
        first, final = {}, {}
        for i, tr in enumerate(s.trace):
            first.setdefault((tr[0], tr[3]), i)
            final[tr[0], tr[3]] = i
        keep = set(first.values()) | (set(final.values()) if tier == 'thorough' else set())
        alive = [max([i for i, tr in enumerate(s.trace) if tr[0] == t], default=-1) for t in range(s.n)]
        for i, tr in enumerate(s.trace):
            if i > last and (tr[2] or (every and i in keep)):
                for to in range(s.n):
                    if to != tr[0] and alive[to] > i:
                        succ.append(dict(case, pre=case['pre'] + [[tr[0], tr[1], to]], bound=case['bound'] if tr[2] else 1))
    switches = [list(tr[:2]) for a, tr in zip([None] + s.trace[:-1], s.trace) if a is None or a[0] != tr[0]]
    h = hashlib.sha1(json.dumps([list(case['ops']), case['handlers'], [(tr[0],) + tr[3] for tr in s.trace]]).encode()).hexdigest()[:16]
    return Result(key=h, bad=bad, runs=1, succ=succ, nontrivial=len(switches) > 1)
