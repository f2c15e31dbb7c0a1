"""Weights: programs x weight prefixes x thresholds against weighted nested forward mode."""
import catalog as K
import jax.flatten_util as jfu
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
import prog
from prog import CTX, build, inputs, parse_tm, run_fn

BOUNDS = dict(
    quick='18 argument structures x up to 13 weight prefixes each x 9 functions, and the compact operation set on 21 structures x 3 weightings; thresholds 0, 1, 3, 100, eager and compiled',
    thorough='as quick with every operation of the catalogue, all thresholds 0..4 and 100',
)
CHUNK = 8

# argument structure -> weight prefixes
ARGS = {
    'A(3)': ['2.', '0.5', '-1.5', '0.', '2', '(3.,)', '[3.]', 'np.float64(0.7)', 'np.float32(0.5)', 'jnp.float64(1.25)', 'None', 'jnp.asarray(2)', '(None,)' if False else '1'],
    'A(2),A(3)': ['2.', '(2.,0.5)', '[2.,0.5]', '(0.,1.)', '(-1.,3)', '(jnp.float64(.3),2)', '(1.,1.)', '0.'],
    'A()': ['0.5', '(2.,)'],
    'A(),A(2,2)': ['(0.5,2.)', '3.', '(0.,2.)'],
    'A(2,2),A(2),A()': ['(0.5,2.,-1.)', '[1.,0.,2.]', '0.3'],
    '(A(2),A(1))': ['(2.,)', '((2.,0.5),)', '[(2.,0.5)]', '0.4', '[2.]'],
    'dict(b=A(2),a=A(3))': ['0.4', '(dict(b=2.,a=0.5),)', '[dict(a=0.,b=1.)]', '(2.,)'],
    '[A(2),A(1)],A(2)': ['(2.,0.5)', '([2.,3.],0.5)', '([0.,3.],0.)', '[2.,0.1]', '3'],
    'dict(p=[A(1),A(2)],q=(A(),)),A(2)': ['2.', '(2.,3.)', '(dict(p=2.,q=3.),4.)', '(dict(p=[2.,0.5],q=3.),4.)', '(dict(p=[2.,0.5],q=(3.,)),4.)', '[dict(p=0.,q=(3.,)),1.]'],
    '((A(1),(A(2),)),A(1))': ['((2.,3.),)', '(((2.,0.5),3.),)', '(((2.,(0.5,)),3.),)', '2.'],
}
FNS = [
    'jnp.sin(F).sum()', 'F**2', 'jnp.prod(F)', 'F*F[::-1]', 'jnp.exp(-F)@w(N,2)', 'jnp.outer(F,F)[0]', 'jax.nn.logsumexp(F)', 'F[:1]*F.sum()', '(F[0],jnp.tanh(F),c(2))',
]
COMPACT_W = ['2.', '(0.5,)', '(0.,)']


def mk(expr, k=[0]):
    k = [0]

    def A(*sh):
        k[0] += 1
        return prog.inp(sh, k[0])

    return eval(f'({expr},)', {'A': A, 'dict': dict})


def roots(tier):
    full = ['0e', '0j', '1e', '1j', '2e', '3j', '4e', '100e', '100j']
    rot = [['0e', '100j'], ['0j', '3e'], ['1j', '100e']]
    i = 0
    for a, ws in ARGS.items():
        for wt in ws:
            for fn in FNS:
                i += 1
                yield dict(kind='struct', args=a, w=wt, fn=fn, tm=full if tier == 'thorough' else rot[i % 3])
    for p, (ins, pre, sh) in K.PRELUDES.items():
        a = f'v[{len(ins) + len(pre) - 1}]'
        for e in dict.fromkeys(K.compact(a, sh) if tier == 'quick' else K.all_unary(a, sh)):
            i += 1
            ws = ['0.5', '-2.'] if len(ins) == 1 else ['(0.5,2.)', '(0.,-1.5)']
            for wt in ([ws[i % 2]] if tier == 'quick' else ws):
                yield dict(kind='prog', w=wt, **{'in': ins, 'prog': pre + [e], 'tm': full if tier == 'thorough' else rot[i % 3][i % 2:][:1]})


def flat_weights(wt, args):
    """broadcast a tree prefix over the arguments, independently of folx"""
    if wt is None:
        wt = 1.0
    if isinstance(wt, list):
        wt = tuple(wt)
    out = []

    def rec(w, tree):
        if isinstance(w, (tuple, list)):
            assert len(w) == len(tree)
            for a, b in zip(w, tree):
                rec(a, b)
        elif isinstance(w, dict):
            assert sorted(w) == sorted(tree)
            for k in sorted(w):
                rec(w[k], tree[k])
        else:
            for leaf in jtu.tree_leaves(tree):
                out.append(np.full(np.size(leaf), float(w)))

    rec(wt, args)
    return np.concatenate(out)


def run(case, seed, tier):
    CTX['seed'] = seed
    wt = eval(case['w'], {'np': np, 'jnp': jnp, 'dict': dict})
    if case['kind'] == 'struct':
        args = mk(case['args'])
        n = prog.total_n(args)

        def f(*a):
            F = jfu.ravel_pytree(a)[0]
            return eval(case['fn'].replace('N', str(n)), {**prog.NS, 'F': F})

        f.__name__ = 'program'
    else:
        f, args = build(case), inputs(case)
    fw = flat_weights(wt, args)
    res = None
    for th, mode in prog.single(parse_tm(case['tm']), case):
        if mode == 'j' and (wt is None or 'None' in case['w']):
            mode = 'e'
        r = run_fn(f, args, [(th, mode)], weights=(wt if wt is not None else None, fw))
        if res is None:
            res = r
        else:
            res.bad += r.bad
            res.runs += r.runs
            res.key = (res.key or []) + (r.key or [])
        if r.skip:
            return r
    return res
