"""Complex intermediate values: every chain into, through and out of the complex plane."""
import itertools as it

from prog import CTX, build, inputs, parse_tm, run_fn, single

BOUNDS = dict(
    quick='7 ways to form complex values from 5 structures x 45 complex operations x 8 ways to use the result; binary operations of two complex values; thresholds 0, 1, 3, 100; 13 uses of determinants of 10 batches of complex matrices; 29 general rules on 6 complex structures',
    thorough='as quick with all thresholds 0..4 and 100, eager and compiled, and two consecutive complex operations',
)
CHUNK = 8

# whole programs: batches of determinants and general rules between the real and complex worlds
BATCH = [
    ([[2]], 'v[0][:,None,None]*(w(3,3)+1j*w(3,3,k=1))+2.*jnp.eye(3)'), ([[2, 3]], 'v[0][:,None,:]*(w(3,3)+1j*w(3,3,k=1))+jnp.eye(3)'), ([[3]], 'v[0]*(w(2,2,3,3)+1j*w(2,2,3,3,k=1))+2.*jnp.eye(3)'),
    ([[2, 2, 2]], 'jnp.exp(1j*v[0])+jnp.eye(2)'), ([[2, 2]], 'jnp.stack([v[0]+1j*v[0].T,1j*v[0]**2+2.*jnp.eye(2),v[0]-0.5j])'), ([[2], [2]], 'v[0][:,None,None]*w(2,2)+1j*v[1][None,:,None]*w(2,2,k=2)+jnp.eye(2)'),
    ([[3]], '(v[0][:,None,None,None]*(1.+0.3j)+v[0][None,:,None,None]*1j)*w(2,2)+jnp.eye(2)'), ([[4]], '(v[0].reshape(2,2)+0.4j)[None]*jnp.asarray([1.,1j])[:,None,None]'), ([[1, 2, 2]], 'v[0]+1j*jnp.eye(2)'), ([[3]], 'jnp.exp(1j*v[0])[:,None,None]'),
]
DETS = ['jnp.linalg.slogdet({z})', 'jnp.linalg.slogdet({z})[0]', 'jnp.linalg.slogdet({z})[1]', 'jnp.linalg.slogdet({z})[0].prod()', 'jnp.linalg.slogdet({z})[0]*jnp.exp(jnp.linalg.slogdet({z})[1])', 'jnp.linalg.slogdet({z})[0].real', 'jnp.linalg.det({z})', 'jnp.abs(jnp.linalg.slogdet({z})[0]-0.2)', 'jnp.swapaxes(jnp.linalg.inv({z}),-1,-2).sum(0)', 'jax.nn.logsumexp(jnp.linalg.slogdet({z})[1],b=jnp.cos(jnp.linalg.slogdet({z})[1]))', 'jnp.linalg.slogdet({z})[0].sum()', 'jnp.linalg.slogdet(jnp.stack([{z},2j*{z}]))', 'jnp.linalg.slogdet({z})[0][...,None]*c(2)']
GENERAL = ['CN({z})', 'CN({z}.sum())', 'CN({z}.prod())', 'CN({z}[0])', 'CN({z}[:2])', 'CN({z}[:1]*{z}[1])', 'CN({z}.real)', 'CN(jnp.stack([{z}.sum(),{z}[0]]))', 'jax.vmap(CN)({z})', 'jax.vmap(CN)(jnp.outer({z},{z}))', 'CN({z})*{z}', 'CC({z})', 'CC({z}.sum())', 'CC({z}[:2])', 'jax.vmap(CC)(jnp.outer({z},{z}.conj()))', 'CC({z}.real)', 'CN(CC({z}))', 'CJ3({z},{z}[::-1],{z}.sum())', 'CJ3({z},{z}.real,c(3))', 'CJ3({z}.imag,{z},{z}[0])', 'CJ4({z},{z}[0],1j,{z}.conj())', 'CN(jnp.concatenate([{z},{z}*1j]))', 'jnp.logaddexp(CN({z}[:2]),CN({z}[1:]))', 'CN({z})+1j*CN({z}**2)', 'jnp.abs(CC({z}))', 'jnp.prod(jnp.abs({z}))', 'jnp.linalg.norm(CC({z}))', 'jax.jit(CN)({z})', 'CN({z})[None]*c(2)']
GFORM = ['v[0]+0.5j', 'jnp.exp(1j*v[0])', 'lax.complex(v[0],v[0][::-1]**2)', 'v[0]*jnp.exp(1j*v[0].sum())', 'v[0]@(w(3,3)+1j*w(3,3,k=1))', 'jnp.where(m(3),v[0],1j*v[0])']

STRUCT = {
    'id': ([[3]], [], 'v[0]', (3,)),
    'two': ([[3], [3]], ['v[0]*v[1]'], 'v[2]', (3,)),
    'prod': ([[3]], ['v[0]*v[0][::-1]'], 'v[1]', (3,)),
    'mat': ([[2, 2]], [], 'v[0]', (2, 2)),
    'dense': ([[3]], ['jnp.sin(v[0]@w(3,3))+0.2'], 'v[1]', (3,)),
    'constpart': ([[2]], ['jnp.concatenate([v[0],c(1)])'], 'v[1]', (3,)),
    'scalar': ([[]], [], 'v[0]', ()),
}
FORM = ['{a}+0.5j', '{a}*(0.6-0.8j)', 'jnp.exp(1j*{a})', 'lax.complex({a},{a}**2)', '{a}+1j*{a}[::-1]', 'jnp.asarray({a},jnp.complex128)', 'jnp.where(m({s}),{a},1j*{a})', 'lax.complex({a},jnp.ones_like({a}))', '(0.3+1j)/{a}']
FORM0 = [f for f in FORM if '[::-1]' not in f and 'm(' not in f]


def ops(z, s):
    n = 1
    for q in s:
        n *= q
    out = [
        z, f'{z}*{z}', f'{z}*jnp.conj({z})', f'jnp.conj({z})', f'-{z}', f'{z}**2', f'{z}**3', f'{z}*1j', f'{z}+{z}[::-1]' if s else f'{z}+1j', f'{z}/(1.5+0.2j)', f'1./(2.5+{z})', f'{z}/(2.+jnp.conj({z}))',
        f'jnp.exp({z})', f'jnp.sin({z})', f'jnp.cos({z})', f'jnp.tanh(0.4*{z})', f'jnp.log(2.5+{z})', f'jnp.sqrt(2.5+{z})', f'jnp.square({z})', f'(2.+{z})**1.5', f'jnp.sinh({z})', f'jnp.cosh(0.5*{z})',
        f'jnp.abs({z})', f'jnp.abs({z})*{z}', f'jnp.real({z})', f'jnp.imag({z})', f'{z}.real+1j*{z}.imag**2', f'jnp.abs({z})**2', f'jnp.log(0.5+jnp.abs({z}))', f'lax.complex({z}.imag,{z}.real)', f'{z}*2', f'{z}-{z}.real', f'{z}*{z}.real',
        f'{z}.astype(jnp.complex128)', f'lax.stop_gradient({z})*{z}', f'jnp.where({z}.real>0.5,{z},jnp.conj({z}))', f'lax.reciprocal(2.+{z})', f'lax.integer_pow(2.+{z},-2)', f'lax.expm1({z})', f'lax.log1p(0.2*{z})', f'jnp.exp(1j*jnp.abs({z}))', f'{z}/jnp.abs({z})',
        f'jnp.angle(2.5+{z})', f'lax.rsqrt(2.5+{z})', f'lax.logistic(0.3*{z})',
    ]
    if s:
        out += [f'jnp.sum({z},0)', f'jnp.sum({z}**2)', f'jnp.prod({z},0)', f'jnp.mean({z})', f'jnp.cumsum({z},0)', f'{z}[::-1]*{z}', f'{z}[np.array([0,0,1])]', f'{z}.at[0].set(1j)', f'{z}.at[0].add(jnp.conj({z}[1]))', f'jnp.concatenate([{z},{z}.conj()])',
                f'jnp.linalg.norm({z})', f'jnp.sum(jnp.abs({z})**2,-1)', f'jnp.tensordot({z},w({s[-1]},2)+1j*c({s[-1]},2),1)', f'jnp.tensordot({z},jnp.conj({z}),(({len(s) - 1},),({len(s) - 1},)))', f'jnp.vdot({z},{z})', f'jnp.einsum("...i,...i->...",{z},{z})',
                f'jnp.where(m(*{s}),{z},0.)', f'jnp.stack([{z},1j*{z}])', f'{z}*c(2,*{(1,) * len(s)})', f'jnp.outer({z},{z}.conj())', f'jnp.cumprod({z},0)', f'jnp.linalg.norm({z},axis=0)', f'jnp.exp({z}).sum(0)', f'jnp.roll({z},1)']
    if len(s) == 2:
        out += [f'{z}@{z}', f'{z}@{z}.conj().T', f'jnp.trace({z})', f'jnp.linalg.det({z}+2.*jnp.eye(2))', f'jnp.linalg.slogdet({z}+2.*jnp.eye(2))', f'{z}@w(2,2)', f'(w(2,2)+1j)@{z}', f'jnp.einsum("ij,kj,ik->",{z},{z}.conj(),{z})', f'jnp.linalg.slogdet({z}+2.*jnp.eye(2))[1]', f'{z}.T']
    return list(dict.fromkeys(out))


USE = ['{z}', 'jnp.real({z})', 'jnp.abs({z})**2', 'jnp.log(0.4+jnp.abs({z}))', 'jnp.imag({z})*jnp.real({z})', '(jnp.real({z}),{z},jnp.imag({z}))', 'jnp.sum(jnp.abs({z}))', 'jnp.exp({z}).real']
PAIR = ['{y}*{z}', '{y}+{z}', '{y}-{z}', '{y}/(2.+{z})', 'jnp.conj({y})*{z}', '{y}*{z}.real', 'jnp.where(m({s}),{y},{z})', 'jnp.dot({y},{z})', 'jnp.vdot({y},{z})', 'jnp.outer({y},{z})', '(2.+{y})**{z}', 'jnp.abs({y}-{z})', 'jnp.concatenate([{y},{z}])', '{y}.at[0].set({z}[1])', 'lax.complex({y}.real,{z}.imag)', '{y}.sum()*{z}', '{y}*{a}', '{a}/(1.+{z})', '{a}-{z}', 'jnp.stack([{a}+0j,{z}])', 'jnp.logaddexp({y}.real,{z}.imag)', 'jnp.einsum("i,j,i->j",{y},{z},{a})', '{a}@jnp.outer({y},{z})']


def roots(tier):
    full = ['0e', '0j', '1e', '2j', '3e', '4j', '100e', '100j']
    rot = [['0j'], ['100j', '1e'], ['100e'], ['3e']]
    i = 0
    for ins, pre in BATCH:
        for d in DETS:
            i += 1
            yield {'in': ins, 'prog': [pre, d.format(z=f'v[{len(ins)}]')], 'tm': ['0e', '0j'] if '.inv' in d else full if tier == 'thorough' else [['0e', '100j'], ['0j', '100e'], ['2e', '0e']][i % 3], 'signed': i % 2 == 0}
    for pre in GFORM:
        for g in GENERAL:
            i += 1
            yield {'in': [[3]], 'prog': [pre, g.format(z='v[1]')], 'tm': full if tier == 'thorough' else [['0e', '100j'], ['0j', '100e'], ['2e', '1j']][i % 3]}
    for name, (ins, pre, a, s) in STRUCT.items():
        if tier == 'quick' and name in ('scalar', 'constpart'):
            forms = [FORM[0], FORM[2]]
        else:
            forms = FORM if s else FORM0
        if tier == 'quick' and name == 'dense':
            forms = [FORM[3]]
        sh = ','.join(map(str, s))
        k = len(ins) + len(pre)
        for fi, form in enumerate(forms):
            z = f'v[{k}]'
            for oi, op in enumerate(ops(z, s)):
                steps = pre + [form.format(a=a, s=sh), op]
                us = USE if tier == 'thorough' or (name == 'id' and fi == 3) else [USE[(oi + fi) % len(USE)]]
                for u in us:
                    if 'slogdet' in op and op.endswith(')'):
                        u = '{z}'
                    i += 1
                    yield {'in': ins, 'prog': steps + ([u.format(z=f'v[{k + 1}]')] if u != '{z}' else []), 'tm': full if tier == 'thorough' else rot[i % 4]}
                if tier == 'thorough' and name in ('id', 'mat') and fi < 4:
                    for op2 in ops(f'v[{k + 1}]', ())[:30]:
                        yield {'in': ins, 'prog': steps + [op2], 'tm': ['0j', '2e', '100j']}
        if len(s) == 1:
            for (f1, f2) in it.permutations(FORM[:6] if tier == 'quick' else FORM, 2):
                if tier == 'quick' and name not in ('id', 'prod'):
                    continue
                for e in PAIR:
                    i += 1
                    if tier == 'quick' and (i + (name == 'prod')) % 2:
                        continue
                    yield {'in': ins, 'prog': pre + [f1.format(a=a, s=sh), f2.format(a=a, s=sh), e.format(y=f'v[{k}]', z=f'v[{k + 1}]', a=a, s=sh)], 'tm': full if tier == 'thorough' else rot[i // 2 % 4]}


def run(case, seed, tier):
    CTX['seed'] = seed
    return run_fn(build(case), inputs(case), single(parse_tm(case['tm']), case), tol=1e-7)
