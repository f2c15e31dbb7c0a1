"""All small data flow graphs: operands, outputs, and release of what is no longer used."""
import gc
import itertools as it
import weakref

import jax
import jax.numpy as jnp
import numpy as np
import prog
from core import Result
from folx import forward_laplacian, register_function
from folx.api import FwdJacobian, FwdLaplArray
from folx.experimental.memory import compute_memory
from prog import CTX

BOUNDS = dict(
    quick='all data flow graphs of 2 steps (1-3 operands, 1-2 results, 3 sources, all output sets incl. duplicates and inputs) and of 3 steps (1-2 operands, all output sets; all contiguous ranges of steps moved into a compiled call), with release monitors at every step; memory estimates of all graphs of 3 steps over 4 operand sizes; 3-step graphs of arithmetic at 2 thresholds',
    thorough='as quick with 4 steps, and numeric graphs at 4 thresholds, eager and compiled',
)
CHUNK = 1
SH = (2,)
MAXS = 8
PHI = 0.6180339887498949


def weights(s, j):
    """coefficients of step s, result j: offset and factor per operand"""
    f = lambda q: 0.3 + ((q + 1) * PHI) % 1
    b = 31 * s + 7 * j
    return 0.2 * f(b), [f(b + 11 + 3 * i) for i in range(4)]


def combine(s, j, xs):
    o, w = weights(s, j)
    out = o + w[0] * xs[0]
    for i in range(1, len(xs)):
        out = out + w[i] * xs[i]
    return out


MON = {}


def make_op(s, two):
    name = f'mc_op_{s}{"d" if two else ""}'

    def body(*xs):
        out = [combine(s, j, xs) for j in range(2 if two else 1)]
        return tuple(out) if two else out[0]

    body.__name__ = body.__qualname__ = name
    fn = jax.jit(body)

    def rule(args, kwargs, sparsity_threshold=0):
        MON['entry'](s, args)
        lap = [isinstance(a, FwdLaplArray) for a in args]
        x = [np.asarray(a.x if l else a) for a, l in zip(args, lap)]
        n = 4
        jac = [np.asarray(a.jacobian.data) if l else np.zeros((n,) + SH) for a, l in zip(args, lap)]
        lp = [np.asarray(a.laplacian) if l else np.zeros(SH) for a, l in zip(args, lap)]
        x = [np.broadcast_to(a, SH) for a in x]
        outs = []
        for j in range(2 if two else 1):
            o, _ = weights(s, j)
            q = [jnp.array(combine(s, j, x)), jnp.array(combine(s, j, jac) - o), jnp.array(combine(s, j, lp))]
            MON['born'](s, j, q)
            outs.append(FwdLaplArray(q[0], FwdJacobian(q[1], None), q[2]))
        return outs if two else outs[0]

    register_function(name, rule)
    return fn


OPS = {}


def op(s, two=False):
    if (s, two) not in OPS:
        OPS[s, two] = make_op(s, two)
    return OPS[s, two]


K1 = np.array([0.9, 1.2])

# ---- graphs ---------------------------------------------------------------------------
# sources: 'a','b' dependent, 'k' captured constant, 'l' literal; steps: [operands, two]
# values are named 'a','b','k','l',(s, j)


def graphs(n, fan, sources, kinds=(False,)):
    def rec(steps, vals):
        if len(steps) == n:
            yield steps
            return
        s = len(steps)
        for k in range(1, fan + 1):
            for ops in it.product(vals, repeat=k):
                for two in kinds:
                    yield from rec(steps + [[list(ops), two]], vals + [[s, 0]] + ([[s, 1]] if two else []))

    yield from rec([], list(sources))


def evaluate(steps, outs, call, a, b, run=None):
    """the program itself (also traced)"""
    env = {'a': a, 'b': b, 'k': K1, 'l': 0.5}
    key = lambda v: v if isinstance(v, str) else tuple(v)
    run = run or (lambda s, two, xs: op(s, two)(*xs))

    def do(env, rng):
        for s in rng:
            ops, two = steps[s]
            r = run(s, two, [env[key(v)] for v in ops])
            for j, q in enumerate(r if two else (r,)):
                env[s, j] = q

    if call is None:
        do(env, range(len(steps)))
    else:
        lo, hi = call
        do(env, range(lo))
        ins, esc = interface(steps, outs, call)

        def mc_call(*xs):
            e = dict(zip(ins, xs))
            e.update({q: env[q] for q in ('k', 'l')})
            do(e, range(lo, hi))
            return tuple(e[q] for q in esc)

        env.update(zip(esc, jax.jit(mc_call)(*[env[q] for q in ins])))
        do(env, range(hi, len(steps)))
    return tuple(env[key(v)] for v in outs)


def interface(steps, outs, call):
    key = lambda v: v if isinstance(v, str) else tuple(v)
    lo, hi = call
    inner = {(s, j) for s in range(lo, hi) for j in range(2 if steps[s][1] else 1)}
    ins = []
    for s in range(lo, hi):
        for v in map(key, steps[s][0]):
            if v not in inner and v not in ins and v not in ('k', 'l'):
                ins.append(v)
    used = {key(v) for s in range(hi, len(steps)) for v in steps[s][0]} | {key(v) for v in outs}
    return ins, sorted(inner & used)


def check_graph(steps, outs, call, res, label):
    """Runs one graph under the monitors."""
    key = lambda v: v if isinstance(v, str) else tuple(v)
    # two independent steps at the end, so that releases are observed
    n0 = len(steps)
    steps = steps + [[['b'], False], [['b'], False]]
    outs = outs + [[n0, 0], [n0 + 1, 0]]
    N = len(steps)
    a, b = np.array([0.4, 0.7]), np.array([0.5, 1.1])
    # values, dependence and uses in the model
    val, dep = {'a': a, 'b': b, 'k': K1, 'l': np.full(SH, 0.5)}, {'a', 'b'}
    tang = {'a': np.eye(4)[:2], 'b': np.eye(4)[2:], 'k': np.zeros((2, 4)), 'l': np.zeros((2, 4))}
    uses, ran = {}, []
    for s, (ops, two) in enumerate(steps):
        ops = [key(v) for v in ops]
        for v in ops:
            uses.setdefault(v, []).append(s)
        if any(v in dep for v in ops):
            ran.append(s)
            dep |= {(s, j) for j in range(1 + two)}
        for j in range(1 + two):
            val[s, j] = combine(s, j, [val[v] for v in ops])
            tang[s, j] = combine(s, j, [tang[v] for v in ops]) - weights(s, j)[0]
    outk = [key(v) for v in outs]
    ins, esc = interface(steps, outs, call) if call else ([], [])
    last = {v: max(u) for v, u in uses.items()}
    refs, seen = {}, []

    def entry(s, args):
        seen.append(s)
        ops = [key(v) for v in steps[s][0]]
        if len(args) != len(ops):
            res.bad.append(f'{label}: step {s} got {len(args)} operands')
            return
        for i, (x, v) in enumerate(zip(args, ops)):
            lap = isinstance(x, FwdLaplArray)
            if lap != (v in dep) or not np.allclose(x.x if lap else x, val[v], rtol=1e-12):
                res.bad.append(f'{label}: operand {i} of step {s} is not {v}')
        alive = []
        for v, rs in refs.items():
            t = max(last.get(v, -1), v[0])
            if t >= s - 1 or v in outk:
                continue
            if call and call[0] <= s < call[1] and (v in ins or v in esc or v[0] == call[0] - 1):
                continue
            if call and call[0] <= s <= call[1] + 1 and (v in ins or v in esc or v[0] == call[0] - 1) and t < call[1]:
                continue  # operands and results of the call that has just ended
            alive.append((v, rs))
        if any(r() is not None for _, rs in alive for r in rs):
            gc.collect()
            for v, rs in alive:
                if any(r() is not None for r in rs):
                    res.bad.append(f'{label}: {v} is still alive at step {s}, last used at step {last.get(v)}')

    def born(s, j, arrays):
        refs[s, j] = [weakref.ref(q) for q in arrays]

    MON.update(entry=entry, born=born)
    f = lambda a, b: evaluate(steps, outs, call, a, b)
    try:
        out = forward_laplacian(f, disable_jit=True)(jnp.array(a), jnp.array(b))
    except Exception as e:
        if e.__class__.__name__ == 'CaseTimeout':
            raise
        res.bad.append(f'{label}: raised {type(e).__name__}: {str(e)[:200]}')
        return
    res.runs += 1
    if seen != ran:
        res.bad.append(f'{label}: steps {seen} were executed, expected {ran}')
    for i, (o, v) in enumerate(zip(out, outk)):
        lap = isinstance(o, FwdLaplArray)
        if lap != (v in dep):
            res.bad.append(f'{label}: output {i} ({v}) propagated: {lap}')
        elif not np.allclose(o.x if lap else o, val[v], rtol=1e-12):
            res.bad.append(f'{label}: output {i} is not {v}')
        elif lap and not np.allclose(o.jacobian.dense_array, tang[v].T, rtol=1e-12):
            res.bad.append(f'{label}: Jacobian of output {i} is not that of {v}')
    dead = [(v, rs) for v, rs in refs.items() if v not in outk]
    if any(r() is not None for _, rs in dead for r in rs):
        gc.collect()
        for v, rs in dead:
            if any(r() is not None for r in rs):
                res.bad.append(f'{label}: {v} is still alive after the evaluation')


def out_sets(steps, rich):
    vals = [[s, j] for s in range(len(steps)) for j in range(1 + steps[s][1])]
    if not rich:  # the last result, and one of: everything, the first result, duplicates
        n = len(steps)
        h = sum(len(o) * (i + 1) for i, (o, _) in enumerate(steps)) % 3
        return [[[n - 1, 0]], [vals, [[0, 0]], [vals[0], [n - 1, 0], vals[0]]][h]] + ([vals, [[0, 0]]] if rich is None else [])
    sets = []
    for r in range(0, len(vals) + 1):
        sets += [list(c) for c in it.combinations(vals, r)]
    sets += [[vals[-1], vals[-1]], ['a', vals[0], 'k'], [vals[-1], 'b', vals[0], vals[-1]]]
    return sets


# ---- numeric graphs ---------------------------------------------------------------------
NUM = ['{0}*{1}', 'jnp.arctan2({0},{1})', '{0}@jnp.outer({1},{1})', 'jnp.sin({0})+{1}[::-1]']

# ---- memory estimates -----------------------------------------------------------------
# steps over values of different sizes, all elementwise or reductions of float64
MEM = ['{0}*{1}', 'jnp.sin({0}[0])+{1}[0]', 'jnp.concatenate([{0}.ravel(),{1}.ravel()])', 'jnp.stack([{0}]*5)+0*{1}.sum()']


def roots(tier):
    deep = tier == 'thorough'
    # two steps: the first step is the case
    for ops in it.chain.from_iterable(it.product('abk', repeat=k) for k in (1, 2, 3)):
        for two in (False, True):
            yield dict(kind='g2', first=[list(ops), two])
    for ops in it.chain.from_iterable(it.product('akl', repeat=k) for k in (1, 2)):
        yield dict(kind='g2', first=[list(ops), True], src='akl')
    for ops in it.chain.from_iterable(it.product('abk', repeat=k) for k in (1, 2)):
        for ops2 in it.chain.from_iterable(it.product(['a', 'b', 'k', [0, 0]], repeat=k) for k in (1, 2)):
            yield dict(kind='g3', first=[[list(ops), False], [list(ops2), False]], src='abk')
    for ops in it.chain.from_iterable(it.product('ak', repeat=k) for k in (1, 2)):
        for ops2 in it.chain.from_iterable(it.product(['a', 'k', [0, 0]], repeat=k) for k in (1, 2)):
            yield dict(kind='n3', first=[[list(ops), False], [list(ops2), False]], src='ak')
    if deep:
        for ops in it.chain.from_iterable(it.product('ab', repeat=k) for k in (1, 2)):
            for ops2 in it.chain.from_iterable(it.product(['a', 'b', [0, 0]], repeat=k) for k in (1, 2)):
                yield dict(kind='g4', first=[[list(ops), False], [list(ops2), True]], src='ab')
    for o1 in range(len(MEM)):
        for o2 in range(len(MEM)):
            for ops in it.product('a1', repeat=2):
                yield dict(kind='mem', o=[o1, o2], ops=list(ops))
    for o1 in range(len(NUM)):
        for o2 in range(len(NUM)):
            for ops in it.product('abk', repeat=2) if deep else ['ab', 'aa', 'ka'][(o1 + o2) % 3 :][:2]:
                yield dict(kind='num', o=[o1, o2], ops=list(ops))


def extend(first, src, n, fan):
    vals = list(src) + [[s, j] for s in range(len(first)) for j in range(1 + first[s][1])]
    if len(first) == n:
        yield first
        return
    for k in range(1, fan + 1):
        for ops in it.product(vals, repeat=k):
            yield from extend(first + [[list(ops), False]], src, n, fan)


def run(case, seed, tier):
    CTX['seed'] = seed
    gc.freeze()
    res = Result(key=case)
    kind = case['kind']
    if kind == 'mem':
        memory(case, res, tier)
    elif kind == 'num':
        numeric(case, res, tier)
    else:
        first = [case['first']] if kind == 'g2' else case['first']
        src = case.get('src', 'abk')
        n = int(kind[1])
        for steps in extend(first, src, n, 3 if kind == 'g2' and tier == 'thorough' else 2):
            steps = [[list(o), t] for o, t in steps]
            nested = kind in ('n3', 'g4')
            calls = [None] if not nested or kind == 'g4' else []
            if nested:
                calls += [(lo, hi) for lo in range(n) for hi in range(lo + 1, n + 1) if tier == 'thorough' or hi - lo != 1 or lo == 1]
            for call in calls:
                for outs in out_sets(steps, kind == 'g2' or (kind == 'g3' and tier == 'thorough') or (None if tier == 'thorough' else False)):
                    label = f'{steps}->{outs}' + (f' call{call}' if call else '')
                    check_graph(steps, outs, call, res, label)
                    if len(res.bad) > 5:
                        return res
    return res


def numeric(case, res, tier):
    """Arithmetic: values, Jacobians and Laplacians of every wiring of three steps."""
    def name(v, s):
        return {'a': 'a', 'b': 'b', 'k': 'K'}.get(v, v)

    for third in range(len(NUM)) if tier == 'thorough' else [(case['o'][0] * 4 + case['o'][1] + len(case['ops'])) % len(NUM)]:
        for ops2 in it.product(['a', 'k', 's0'], repeat=2):
            if 's0' not in ops2:
                continue
            for ops3 in it.product(['b', 's0', 's1'], repeat=2):
                exprs = [NUM[o].format(*[name(v, s) for v in ops]) for s, (o, ops) in enumerate(zip(case['o'] + [third], [case['ops'], ops2, ops3]))]

                def f(a, b):
                    ns = {**prog.NS, 'a': a, 'b': b, 'K': jnp.array(K1)}
                    for s, e in enumerate(exprs):
                        ns[f's{s}'] = eval(e, ns)
                    return ns['s2'], ns['s0']

                if 's1' not in ops3 and 's0' not in ops3:
                    continue
                args = (prog.inp((2,), 0), prog.inp((2,), 1))
                plan = [(2, 'e'), (0, 'j')] if tier == 'quick' else [(0, 'e'), (1, 'j'), (2, 'e'), (100, 'j')]
                if tier == 'quick':
                    plan = plan[(sum(map(ord, ''.join(ops3))) + third) % 2 :][:1]
                r = prog.run_fn(f, args, plan)
                res.runs += r.runs
                res.bad += [f'{exprs}: {m}' for m in r.bad]
                if len(res.bad) > 5:
                    return


def memory(case, res, tier):
    """The estimate against the bytes alive at each step (evaluated in the order of the program)."""
    sizes = {'a': (3,), '1': (1,)}
    for o3 in range(len(MEM)):
        for ops2 in it.product(['a', 's0'], repeat=2):
            for ops3 in it.product(['a', 's0', 's1'], repeat=2):
                for outs in (['s2'], ['s0', 's2'], ['s1']):
                    exprs = [MEM[o].format(*[f'v_{v}' for v in ops]) for o, ops in zip(case['o'] + [o3], [case['ops'], ops2, ops3])]

                    def f(a, one):
                        ns = {**prog.NS, 'v_a': a, 'v_1': one}
                        for s, e in enumerate(exprs):
                            ns[f'v_s{s}'] = eval(e, ns)
                        return [ns['v_' + q] for q in outs]

                    args = (jnp.ones(3), jnp.ones(1))
                    try:
                        jx = jax.make_jaxpr(f)(*args).jaxpr
                    except Exception:
                        continue  # shapes that do not fit
                    lo, hi = liveness(jx)
                    got = compute_memory(f, *args)
                    res.runs += 1
                    if got < lo or (hi is not None and got > hi):
                        res.bad.append(f'{exprs}->{outs}: the estimate is {got}; {lo} to {hi} bytes are alive at the largest step')
                        if len(res.bad) > 5:
                            return


def liveness(jx):
    from jax import core

    lit = lambda v: isinstance(v, core.Literal)
    nb = lambda vs: sum(int(np.prod(v.aval.shape, dtype=int)) * v.aval.dtype.itemsize for v in vs)
    outs = {v for v in jx.outvars if not lit(v)}
    last = {v: i for i, e in enumerate(jx.eqns) for v in e.invars if not lit(v)}
    last.update({v: 10**9 for v in outs})
    born = {v: i for i, e in enumerate(jx.eqns) for v in e.outvars}
    args = set(jx.invars) | set(jx.constvars)
    lo = hi = 0
    nested = False
    for i, e in enumerate(jx.eqns):
        nested |= e.primitive.name in ('pjit', 'scan')
        live = {v for v in last if last[v] >= i and born.get(v, -1) <= i}
        dead = {v for v in e.outvars if v not in last and type(v).__name__ != 'DropVar'}
        lo = max(lo, nb(live - args) + nb(live & args))
        hi = max(hi, nb(live | args | dead))
    return lo, None if nested else hi
