"""Sign and log-determinant: every matrix construction x size x batch x use of the results."""
import jax
import jax.numpy as jnp
import numpy as np
import prog
from prog import CTX, build, inputs, parse_tm, run_fn, single

BOUNDS = dict(
    quick='matrices of size 1 to 3 (batches (), (2,), (2,1); (2,2) if complex) built in 20 ways (dense, row-sparse, partly constant, negative, permuted, complex) x 16 uses of sign and log-determinant x thresholds 0, 1, 100, eager and compiled',
    thorough='as quick with sizes 1 to 4, batch (2,2), and thresholds 0..4, 100',
)
CHUNK = 6

# name -> (inputs for size n and batch b, program steps giving the matrix, complex?)


def builders(n, b):
    sh = list(b) + [n, n]
    S = ','.join(map(str, sh))
    V = list(b) + [n]
    eye = f'{float(n)}*jnp.eye({n})'
    yield 'direct', [sh], [f'v[0]+{eye}'], False
    yield 'plain', [sh], ['v[0]'], False
    yield 'neg', [sh], [f'(v[0]+{eye})*np.array([-1.]+[1.]*{n - 1})[:,None]'], False
    yield 'swap', [sh], [f'(v[0]+{eye})[...,::-1,:]'], False
    yield 'T', [sh], [f'jnp.swapaxes(v[0]+{eye},-1,-2)'], False
    yield 'slater', [V], [f'v[0][...,:,None]**jnp.arange(1,{n + 1})+{eye}'], False
    yield 'slatersin', [V], [f'jnp.stack([jnp.sin((k+1.)*v[0]) for k in range({n})],-1)+0.5*{eye}'], False
    yield 'col', [V], [f'w({n},{n})+0.*v[0][...,None,:]+jnp.tanh(v[0])[...,None,:]+{eye}'], False
    yield 'corner', [[2]], [f'(c({S})+{eye}).at[...,0,0].set(v[0][0]*v[0][1])'], False
    yield 'onerow', [[n]], [f'(c({S})+{eye}).at[...,{n - 1},:].add(v[0])'], False
    yield 'mix', [sh], [f'v[0]@w({n},{n})+2.*{eye}'], False
    yield 'pair', [[n, 2], [n]], [f'jnp.exp(-((v[0][:,None]-v[0][None])**2).sum(-1))*v[1]+{eye}' + (f'+0.1*c({S})' if b else '')], False
    yield 'sq', [sh], [f'(v[0]@jnp.swapaxes(v[0],-1,-2))+{eye}'], False
    yield 'diagonly', [V], [f'v[0][...,None]*jnp.eye({n})'], False
    yield 'cphase', [sh], [f'(v[0]+{eye})*(0.8+0.6j)'], True
    yield 'cconst', [sh], [f'v[0]+1j*c({S})+{eye}'], True
    yield 'cfull', [sh], [f'v[0]+1j*jnp.swapaxes(v[0],-1,-2)**2+{eye}'], True
    yield 'cexp', [sh], [f'jnp.exp(1j*v[0])+{eye}'], True
    yield 'crow', [V], [f'v[0][...,:,None]**jnp.arange(1,{n + 1})*jnp.exp(1j*v[0])[...,:,None]+{eye}*1j'], True
    yield 'cneg', [sh], [f'-(1j*v[0]+{eye})'], True
    yield 'creal', [sh], [f'(v[0]+{eye})+0j'], True
    yield 'ccorner', [[2]], [f'(c({S})+{eye}+0j).at[...,0,0].set(v[0][0]+1j*v[0][1])'], True
    yield 'conly', [[1]], [f'c({S})*(1+1j)+{eye}', 'v[1]+v[0][0]*1j'], True


def uses(M, n, b, cplx):
    u = [
        f'jnp.linalg.slogdet({M})', f'jnp.linalg.slogdet({M})[1]', f'jnp.linalg.slogdet({M})[0]', f'(lambda t:t[0]*jnp.exp(t[1]))(jnp.linalg.slogdet({M}))',
        f'jnp.linalg.slogdet({M})[1]**2', f'(lambda t:t[0]*t[1])(jnp.linalg.slogdet({M}))', f'jnp.linalg.det({M})', f'jax.jit(lambda m_:jnp.linalg.slogdet(m_))({M})',
        f'(lambda t:(t[1],t[0],t[1]*2.))(jnp.linalg.slogdet({M}))', f'jnp.real(jnp.linalg.slogdet({M})[0])', f'tuple(jnp.linalg.slogdet({M}))', f'jnp.linalg.slogdet(0.5*{M})[1]+jnp.linalg.slogdet({M})[1]',
    ]
    if cplx:
        u += [f'jnp.angle(jnp.linalg.slogdet({M})[0]).sum()' if False else f'jnp.abs((lambda t:t[0]*jnp.exp(t[1]))(jnp.linalg.slogdet({M})))', f'jnp.conj(jnp.linalg.slogdet({M})[0])*jnp.linalg.slogdet({M})[0]', f'jnp.linalg.slogdet({M})[0].imag']
    if b:
        u += [f'(lambda t:jnp.sum(t[0]*c()*jnp.exp(t[1]-3.)))(jnp.linalg.slogdet({M}))', f'(lambda t:jnp.log(jnp.abs(jnp.sum(t[0]*jnp.exp(t[1]-jax.lax.stop_gradient(t[1].max()))))))(jnp.linalg.slogdet({M}))',
              f'jnp.linalg.slogdet({M})[1].sum(0)', f'jax.vmap(jnp.linalg.slogdet)({M})', f'jnp.linalg.slogdet({M})[1][::-1]', f'jnp.linalg.slogdet({M}[0])', f'jax.vmap(lambda q:jnp.linalg.slogdet(q)[1],out_axes=-1)({M})']
    else:
        u += [f'jnp.linalg.slogdet(jnp.stack([{M},{M}.T]))', f'jnp.linalg.slogdet(jnp.stack([{M},{M}[::-1]]))[0]', f'jnp.linalg.slogdet({M})[1]*{M}']
    return u


def roots(tier):
    i = 0
    for b in ((), (2,), (2, 1), (2, 2)) if tier == 'quick' else ((), (1,), (2,), (2, 1), (2, 2)):
        for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
            if tier == 'quick' and len(b) == 2 and n != 2:
                continue
            for name, ins, steps, cplx in builders(n, b):
                if tier == 'quick' and b == (2, 2) and not cplx:
                    continue
                M = f'v[{len(ins) + len(steps) - 1}]'
                for e in uses(M, n, b, cplx):
                    i += 1
                    tm = [['0e'], ['100j'], ['1j', '100e']][i % 3] if tier == 'quick' else ['0e', '0j', '1e', '2j', '4e', '100j']
                    for signed in (False, True):
                        if signed and (tier == 'quick' and (i % 4 or n == 1) or name in ('slater',)):
                            continue
                        yield {'in': ins, 'prog': steps + [e], 'tm': tm, 'signed': signed, 'name': name}


def run(case, seed, tier):
    CTX['seed'] = seed
    return run_fn(build(case), inputs(case), single(parse_tm(case['tm']), case), tol=1e-6)
