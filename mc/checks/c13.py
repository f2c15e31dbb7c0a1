"""Dtypes: input dtypes x programs with casts and mixed constants x thresholds."""
import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
import prog
from core import Result
from prog import CTX, parse_tm

import catalog as K

BOUNDS = dict(
    quick='inputs of single, double, half precision and mixed; 60 cast and mixed-constant expressions and chains of two casts on 4 structures, one operation of each rule on 21 structures in single precision; thresholds 0, 1, 100, eager and compiled',
    thorough='as quick with every operation of the catalogue in single precision and chains of three casts',
)
CHUNK = 8
DT = {'f32': 'float32', 'f64': 'float64', 'f16': 'float16', 'bf16': 'bfloat16'}
CAST = ['float32', 'float64', 'float16', 'bfloat16', 'complex64', 'complex128', 'int32', 'int8', 'bool', 'uint8']
LOW = {'float16': 2e-2, 'bfloat16': 1e-1, 'float32': 2e-4, 'complex64': 2e-4}

MIX = [
    '{a}*2', '{a}*2.5', '{a}+np.float32(1.5)', '{a}+np.float64(1.5)', '{a}*jnp.float32(1.5)', '{a}*jnp.float64(1.5)', '{a}*np.ones(3,np.float32)', '{a}*np.ones(3)', '{a}*jnp.ones(3,jnp.float32)', '{a}*jnp.arange(3)', '{a}*jnp.arange(3,dtype=jnp.int8)',
    '{a}@jnp.ones((3,2),jnp.float32)', '{a}@np.ones((3,2))', '{a}>0.9', '({a}>0.9)*{a}', '({a}>0.9).astype({a}.dtype)', '({a}>0.9).astype(int)', 'jnp.floor({a})', 'jnp.floor({a}).astype(jnp.int32)', 'jnp.round({a}).astype(jnp.int32)*{a}', '{a}.astype(jnp.int32)+1', 'jnp.sum({a},dtype=jnp.float64)', 'jnp.sum({a},dtype=jnp.float32)',
    'jnp.sum({a}>0.9)', 'jnp.isfinite({a})', 'jnp.sign({a})', 'jnp.where({a}>0.9,{a},0)', 'jnp.where({a}>0.9,1,0)', 'jnp.mean({a})', 'jnp.mean({a}>0.9)', 'jnp.concatenate([{a},jnp.ones(2,jnp.float32)])', 'jnp.concatenate([{a},np.ones(2)])', '{a}.at[0].set(1)', '{a}.at[0].add(np.float32(.5))',
    'jnp.zeros(3,jnp.float32).at[1:].add({a}[1:].astype(jnp.float32))', 'jnp.zeros(3).at[:].set({a})', '{a}**2', '{a}**2.', '{a}**jnp.float32(1.5)', 'jnp.exp({a})', 'jnp.sqrt({a})', '{a}/3', '3/{a}', 'jnp.maximum({a},0)', 'jnp.maximum({a},np.float64(0.6))', 'lax.complex({a}.astype(jnp.float32),{a}.astype(jnp.float32))', 'lax.complex({a}.astype(jnp.float64),{a}.astype(jnp.float64))',
    '{a}*1j', '({a}*1j).imag', '({a}+1j).real', 'jnp.abs({a}*1j)', '({a}*(1+1j)).astype(jnp.complex64)', 'jnp.real({a})', 'jnp.imag({a})', 'jnp.conj({a})', '{a}.astype(jnp.complex64).real', 'jnp.linalg.norm({a})', 'jnp.dot({a},{a})', 'jnp.dot({a},{a},preferred_element_type=jnp.float64)', 'lax.dot({a},{a}.astype(jnp.float32).astype({a}.dtype))',
    'jax.nn.softmax({a})', 'jax.nn.silu({a})', 'jnp.logaddexp({a},0)', 'jnp.var({a})', 'jnp.prod({a})', 'jnp.max({a})', 'jnp.cumsum({a})', 'jnp.sort({a})', '{a}[jnp.array([2,0])]', 'jnp.broadcast_to({a},(2,3))', 'jnp.stack([{a},{a}])', '-{a}', '({a},{a}.astype(jnp.float32),{a}>0.9,1,jnp.arange(2))', 'jnp.arctan2({a},1)', 'lax.convert_element_type({a},np.float32)',
    'lax.scan(lambda h,x:(h*x.astype(h.dtype),h.astype(jnp.float32)),{a},jnp.ones(2,jnp.float32))', 'jnp.einsum("i,ij->j",{a},jnp.ones((3,2),jnp.float32))', 'jnp.linalg.slogdet(jnp.eye(3)[None].astype(jnp.promote_types({a}.dtype,jnp.float32))*(1.+{a}.astype(jnp.promote_types({a}.dtype,jnp.float32))))', 'jnp.sin({a}).astype(jnp.int32)*{a}', 'lax.stop_gradient({a})', 'jnp.astype({a},jnp.float32)*{a}', 'jnp.clip({a},0,1)',
    '({a}*0).astype(bool)', '{a}.astype(bool)*{a}', 'lax.reduce_precision({a},8,7)' if False else '{a}+0', 'jnp.nan_to_num({a})', 'jnp.full_like({a},2)*{a}', 'jnp.zeros_like({a})+{a}', 'lax.bitcast_convert_type({a}.astype(jnp.float32),jnp.int32)' if False else '{a}*True',
]

STRUCT = {
    'id': ([3], [], 'v[0]'), 'prod': ([3], ['v[0]*v[0][::-1]'], 'v[1]'), 'dense': ([3], ['jnp.sin(v[0]@jnp.ones((3,3),v[0].dtype)+v[0])+2'], 'v[1]'), 'constpart': ([2], ['jnp.concatenate([v[0],jnp.ones(1,v[0].dtype)])'], 'v[1]'),
}


def roots(tier):
    rot = [['0e', '100j'], ['0j', '100e'], ['1e', '100j']]
    full = ['0e', '0j', '1e', '1j', '2j', '100e', '100j']
    i = 0
    for s, (ins, pre, a) in STRUCT.items():
        for d in DT:
            if d in ('f16', 'bf16') and s != 'id' and tier == 'quick':
                continue
            for e in dict.fromkeys(MIX):
                i += 1
                yield dict(dts=[d] * len(ins[:1]), ins=[ins], prog=pre + [e.format(a=a)], tm=full if tier == 'thorough' else rot[i % 3])
        for d in ('f32', 'f64'):
            if tier == 'quick' and s in ('dense',):
                continue
            for c1 in CAST:
                for c2 in CAST:
                    if c1.startswith('complex') and not c2.startswith('complex'):
                        continue
                    for c3 in CAST if tier == 'thorough' else ['']:
                        if c3 and c2.startswith('complex') and not c3.startswith('complex'):
                            continue
                        i += 1
                        b = f'v[{len(pre) + 1}]'
                        e = f'jnp.sum({b}.astype("{c2}").astype("{c3}")*{a},0)' if c3 else f'({b}.astype("{c2}")*3,{b})'
                        yield dict(dts=[d], ins=[ins], prog=pre + [f'{a}.astype("{c1}")', e], tm=full[::2] if tier == 'thorough' else rot[i % 3][i % 2:][:1])
    for dts in (['f32', 'f64'], ['f64', 'f32'], ['f16', 'f32'], ['f32', 'bf16']):
        for e in ('v[0]*v[1]', 'v[0]', 'v[1]', '(v[0]**2,v[1]**2)', 'jnp.concatenate([v[0],v[1]])', 'v[0].astype(v[1].dtype)+v[1]', 'v[0]@jnp.outer(v[1],v[1])', 'jnp.sum(v[0])*v[1]', 'jnp.where(v[0]>0.9,v[0],v[1])', 'v[0]/v[1]'):
            yield dict(dts=dts, ins=[[3], [3]], prog=[e], tm=['0e', '0j', '1e', '100j'] if tier == 'quick' else full)
    for p, (ins, pre, sh) in K.PRELUDES.items():
        a = f'v[{len(ins) + len(pre) - 1}]'
        for e in dict.fromkeys(K.compact(a, sh) if tier == 'quick' else K.all_unary(a, sh)):
            i += 1
            # constants follow the input precision
            pr = [x.replace('c(', 'c32(').replace('w(', 'w32(') if 'func(' not in x else x for x in pre + [e]]
            yield dict(dts=['f32'] * len(ins), ins=ins, prog=pr, tm=full if tier == 'thorough' else rot[i % 3][i % 2:][:1])


def f32ns():
    if 'c32' not in prog.NS:
        prog.NS['c32'] = lambda *s, k=0: prog.c(*s, k=k).astype(jnp.float32)
        prog.NS['w32'] = lambda *s, k=0: prog.w(*s, k=k).astype(jnp.float32)


def run(case, seed, tier):
    CTX['seed'] = seed
    f32ns()
    args = tuple(prog.inp(s, k).astype(DT[d]) for k, (s, d) in enumerate(zip(case['ins'], case['dts'])))
    try:
        f = prog.build({'in': case['ins'], 'prog': [x.replace('arcc32(', 'arcc(') for x in case['prog']]})
        want = f(*args)
    except Exception as e:
        return Result(skip=f'not a program: {type(e).__name__}: {str(e)[:60]}')
    n = prog.total_n(args)
    # reference derivatives: forward mode in the same dtypes, one direction at a time
    flat_n = [int(np.size(a)) for a in args]

    try:
        ref = reference(f, args, flat_n)
    except Exception as e:
        return Result(skip=f'reference rejects: {type(e).__name__}: {str(e)[:60]}')
    if not prog.ref_ok([[np.asarray(a, dtype=complex) for a in part] for part in ref]):
        return Result(skip='reference not finite')
    text = ' '.join(case['prog']) + ' '.join(DT[d] for d in case['dts'])
    tol = max([1e-7] + [t for k, t in LOW.items() if k in text] + ([2e-4] if 'c32' in text else []))
    wl = jtu.tree_leaves(want)
    res = Result(key=[])
    for th, mode in parse_tm(case['tm']):
        try:
            out = prog.execute(f, args, th, mode)
        except Exception as e:
            if e.__class__.__name__ == 'CaseTimeout':
                raise
            res.runs += 1
            res.bad.append(f'th={th} mode={mode}: raised {type(e).__name__}: {str(e)[:160]}')
            continue
        res.runs += 1
        leaves = prog.lleaves(out)
        if len(leaves) != len(wl):
            res.bad.append(f'th={th} mode={mode}: {len(leaves)} outputs')
            continue
        for i, (leaf, y) in enumerate(zip(leaves, wl)):
            d = jnp.asarray(y).dtype
            got = dict(value=jnp.asarray(leaf.x).dtype, jacobian=leaf.jacobian.data.dtype, laplacian=jnp.asarray(leaf.laplacian).dtype) if prog.is_lpl(leaf) else dict(value=jnp.asarray(leaf).dtype)
            for what, g in got.items():
                if g != d:
                    res.bad.append(f'th={th} mode={mode}: out[{i}] dtype of the {what} is {g}, expected {d}')
            if prog.is_lpl(leaf) and not jnp.issubdtype(d, jnp.inexact):
                res.bad.append(f'th={th} mode={mode}: out[{i}] derivatives attached to dtype {d}')
            dense = leaf.jacobian.dense_array.dtype if prog.is_lpl(leaf) else d
            if dense != d:
                res.bad.append(f'th={th} mode={mode}: out[{i}] dtype of the dense jacobian is {dense}, expected {d}')
            up = (lambda a: np.asarray(jnp.asarray(a).astype(jnp.complex128 if jnp.issubdtype(d, jnp.complexfloating) else jnp.float64)))
            y2, J2, L2 = up(ref[0][i]), up(ref[1][i]), up(ref[2][i])
            if prog.is_lpl(leaf):
                leaf = leaf._replace(x=up(leaf.x), laplacian=up(leaf.laplacian), jacobian=leaf.jacobian._replace(data=jnp.asarray(up(leaf.jacobian.data))))
            else:
                leaf = up(leaf)
            res.bad += [f'th={th} mode={mode}: out[{i}] {b}' for b in prog.check_leaf(leaf, y2, J2, L2, n, tol)]
        res.key.append([prog.state_of(l) for l in leaves])
    return res


def reference(f, args, sizes):
    """forward mode over the arguments in their own dtypes"""
    n = sum(sizes)

    def tangent(k):
        out, off = [], 0
        for a, s in zip(args, sizes):
            t = np.zeros(s)
            if off <= k < off + s:
                t[k - off] = 1.0
            out.append(jnp.asarray(t.reshape(a.shape)).astype(a.dtype))
            off += s
        return tuple(out)

    y = None
    Js, Ls = None, None
    for k in range(n):
        t = tangent(k)

        def inner(*a):
            return jax.jvp(f, a, t)[1]

        y_, dy = jax.jvp(f, args, t)
        _, ddy = jax.jvp(inner, args, t)
        fix = (lambda d, v: np.zeros(np.shape(v)) if d.dtype == jax.dtypes.float0 else np.asarray(d.astype(jnp.complex128 if jnp.iscomplexobj(d) else jnp.float64)))
        ys = jtu.tree_leaves(y_)
        dys = [fix(d, v) for d, v in zip(jtu.tree_leaves(dy), ys)]
        ddys = [fix(d, v) for d, v in zip(jtu.tree_leaves(ddy), ys)]
        if Js is None:
            y, Js, Ls = [jnp.asarray(v) for v in ys], [[] for _ in ys], [np.zeros(np.shape(v)) for v in ys]
        for i in range(len(ys)):
            Js[i].append(dys[i])
            Ls[i] = Ls[i] + ddys[i]
    return y, [np.stack(j, -1) for j in Js], Ls
