"""Control flow and nested calls: exact, or rejected with an exception (where declared)."""
import itertools as it

import jax
import prog
from jax import lax  # noqa: F401
from prog import CTX, build, inputs, run_fn

BOUNDS = dict(
    quick='all combinations of loop bodies, carries, scanned inputs, stacked outputs, directions, unrolling and lengths; conditionals with constant and data-dependent predicates; nested compiled calls, custom derivative rules, rematerialization, nested vectorization and nested differentiation; 4 operand structures x thresholds 0, 1, 2, 100 x eager and compiled',
    thorough='as quick on 7 operand structures, all thresholds 0..4 and two nested constructs',
)
CHUNK = 6

# name: (inputs, prelude, operand, its length)
OPS = {
    'id': ([[3]], [], 'v[0]', 3),
    'dense': ([[3]], ['jnp.sin(v[0]@w(3,3))'], 'v[1]', 3),
    'prod': ([[3]], ['v[0]*v[0][::-1]'], 'v[1]', 3),
    'constpart': ([[2]], ['jnp.concatenate([v[0],c(1)])'], 'v[1]', 3),
    'one': ([[1]], ['jnp.tile(v[0],3)'], 'v[1]', 3),
    'sum': ([[3]], ['jnp.stack([v[0].sum(),v[0][0],v[0][1]])'], 'v[1]', 3),
    'long': ([[4]], ['v[0][1:]'], 'v[1]', 3),
}

BODY = {
    'mul': 'h*x', 'add': 'h+x', 'sin': 'jnp.sin(h)*x', 'sq': 'h*h+x', 'keep': 'h', 'rot': 'h[::-1]*x', 'mix': 'jnp.tanh(h@w(3,3))+x', 'self': 'h*h[::-1]', 'cum': 'h+h.sum()*x',
    'dep': 'h*{a}', 'depadd': 'h+jnp.sin({a})*x', 'const': 'h*0.5', 'exp': 'jnp.exp(0.3*h)', 'where': 'jnp.where(m(3),h*x,h+1.)', 'set': 'h.at[0].set(h[1]*x)',
}
YS = {'none': 'None', 'h': 'h', 'hx': 'h*x', 'sum': 'h.sum()', 'two': '(h,jnp.cos(h))', 'const': 'x*2.', 'dep': '{a}*x'}


def scan_programs(a, n, tier):
    full = tier == 'thorough'
    bodies = list(BODY)
    for b, y in it.product(bodies, YS):
        body = f'lax.scan(lambda h,x:({BODY[b]},{YS[y]}),INIT,XS,KW)'.replace('{a}', a)
        variants = [('c(2)', ''), ('c(3)', 'reverse=True')] if not full else [
            ('c(2)', ''), ('c(3)', 'reverse=True'), ('c(1)', ''), ('c(4)', 'unroll=2'), ('c(3)', 'unroll=True'), ('c(3)', 'unroll=2,reverse=True')]
        for xs, kw in variants:
            yield ('scan', body.replace('INIT', a).replace('XS', xs).replace('KW', kw), 'carry')
    extra = [
        (f'lax.scan(lambda h,x:(h*x["s"]+x["b"],h),{a},dict(s=c(3),b=c(3,{n})))', 'scan'),
        (f'lax.scan(lambda h,x:((h[0]*x,h[1]+1),h[0]*h[1]),({a},0),c(3))', 'scan'),
        (f'lax.scan(lambda h,x:((h[0]*c(4)[h[1]],h[1]+1),h[0]),({a},0),None,length=3)', 'scan'),
        (f'lax.scan(lambda h,i:(h*c(5)[i],h),{a},np.array([4,0,2]))', 'scan'),
        (f'lax.scan(lambda h,x:(h*1.1+0.1,h),{a},None,length=3,reverse=True)', 'scan'),
        (f'lax.scan(lambda h,x:((h[0]*c(4)[h[1]],h[1]+1),(h[0],h[1]*1.)),({a},0),None,length=3,reverse=True,unroll=2)', 'scan'),
        (f'lax.scan(lambda h,x:(None,jnp.sin({a})*x),None,c(3),reverse=True)', 'scan'),
        (f'lax.scan(lambda h,x:(h*x["s"],(h,x["b"])),{a},dict(s=c(3),b=c(3,2)),reverse=True,unroll=3)', 'scan'),
        (f'lax.scan(lambda h,x:(h*x,h[::-1]),{a},c(1),reverse=True)', 'scan'),
        (f'lax.fori_loop(0,3,lambda i,h:h*c(4)[i],{a},unroll=True)', 'scan'),
        (f'lax.scan(lambda h,x:((h[0]*x,h[1]*h[0]*x),None),({a},{a}**2),c(3))', 'scan'),
        (f'lax.scan(lambda h,x:((h[1],h[0]),h[0]-h[1]),({a},{a}[::-1]),c(3))', 'carry'),
        (f'lax.scan(lambda h,x:((h[1],h[0]),h[0]*x),({a},c({n})),c(2))', 'reject'),
        (f'lax.scan(lambda h,x:(h+{a},h*x),c({n}),c(2))', 'reject'),
        (f'lax.scan(lambda h,x:(h*x,h),{a},{a})', 'reject'),
        (f'lax.scan(lambda h,x:(h+x,x**2),0.,{a})', 'reject'),
        (f'lax.map(lambda x:jnp.sin(x),{a})', 'reject'),
        (f'lax.map(lambda x:jnp.sin(x)*{a},c(2))', 'scan'),
        (f'lax.map(lambda x:({a}*x,{a}.sum()),c(3))', 'scan'),
        (f'lax.fori_loop(0,3,lambda i,h:h*1.1+i,{a})', 'scan'),
        (f'lax.fori_loop(0,3,lambda i,h:h*c(4)[i]*{a},{a})', 'carry'),
        (f'lax.fori_loop(1,1,lambda i,h:h*2,{a})', 'scan'),
        (f'lax.fori_loop(0,2,lambda i,h:lax.fori_loop(0,2,lambda j,g:g*1.2+h*0.1,h),{a})', 'carry'),
        (f'lax.fori_loop(0,2,lambda i,h:(h[0]*h[1],h[1]),({a},c({n})))', 'scan'),
        (f'lax.scan(lambda h,x:(lax.scan(lambda g,y:(g*y,None),h,c(2))[0],h),{a},c(3))', 'scan'),
        (f'lax.scan(lambda h,x:(h*x,None),{a},c(0))', 'scan'),
        (f'lax.scan(lambda h,x:(jax.jit(lambda u:u*x)(h),jax.nn.silu(h)),{a},c(2))', 'scan'),
        (f'lax.scan(jax.checkpoint(lambda h,x:(jnp.sin(h)*x,h)),{a},c(2))', 'carry'),
        (f'lax.scan(lambda h,x:(lax.cond(x>1.,jnp.sin,jnp.cos,h),None),{a},c(4))', 'carry'),
        (f'jax.vmap(lambda s:lax.scan(lambda h,x:(h*x*s,h),{a},c(2))[0])(c(2))', 'carry'),
        (f'jax.vmap(lambda e:lax.scan(lambda h,x:(h*x,h),e,c(2)))({a})', 'scan'),
        (f'jax.vmap(lambda e:lax.scan(lambda h,x:(h+x*e,None),jnp.float64(0.),c(2))[0])({a})', 'reject'),
    ]
    for e, k in extra:
        yield ('scan', e, k)
    # carries with several arrays: dense, sparse in two orders, constant
    kinds = [f'jnp.sin({a})*{a}.sum()', a, f'jnp.cos({a})[::-1]', f'c({n})']
    for k in (2, 3):
        for t in it.permutations(kinds, k):
            yield ('scan', f'lax.scan(lambda h,x:(tuple(u*x for u in h),sum(h)),({",".join(t)},),c(2))', 'scan')
            if k == 2:
                yield ('scan', f'lax.scan(lambda h,x:(tuple(jnp.sin(u) for u in h),None),({",".join(t)},),None,length=2)', 'scan')


def other_programs(a, n):
    R = 'reject'
    L = []
    for p in ('True', 'jnp.array(False)', f'{a}[0]>0.1', f'{a}.sum()<0.', 'c(1)[0]>0.'):
        L += [(f'lax.cond({p},lambda u:jnp.sin(u),lambda u:u**2,{a})', ''),
              (f'lax.cond({p},lambda u:(u,u.sum()),lambda u:(u*2.,u[0]),{a})', ''),
              (f'lax.cond({p},lambda:{a}*2.,lambda:{a}[::-1])', ''),
              (f'lax.cond({p},lambda u,v_:u*v_,lambda u,v_:u+v_,{a},c({n}))', ''),
              (f'lax.cond({p},lambda u:c({n}),lambda u:u,{a})', ''),
              (f'lax.cond({p},lambda u:c({n}),lambda u:c({n})*2,c(2))*{a}', '')]
    for i in ('0', 'jnp.int32(1)', '5', f'({a}[0]>0.1).astype(int)', f'jnp.argmax(c({n}))'):
        L += [(f'lax.switch({i},[jnp.sin,jnp.cos,lambda u:u**3],{a})', ''),
              (f'lax.switch({i},[lambda u:u.sum(),lambda u:u[0]*u[1],lambda u:u[2]],{a})', '')]
    L += [(f'lax.while_loop(lambda s:s[0]<3,lambda s:(s[0]+1,s[1]*1.5),(0,c({n})))[1]*{a}', ''),
          (f'lax.while_loop(lambda s:s[0]<3,lambda s:(s[0]+1,jnp.sin(s[1])),(0,{a}))[1]', R),
          (f'lax.while_loop(lambda s:s.sum()<9.,lambda s:s*1.5,{a})', R),
          (f'lax.while_loop(lambda s:s[0]<2,lambda s:(s[0]+1,s[1]*{a}),(0,c({n})))[1]', R),
          (f'lax.fori_loop(0,jnp.int32(3),lambda i,h:h*1.1,{a})', R)]
    # nested compiled calls
    L += [(f'jax.jit(lambda u:jnp.sin(u)*{a})({a})', ''), (f'jax.jit(lambda u:(u,u*2.,c({n}),u.sum()))({a})', ''),
          (f'jax.jit(lambda u,k:u*k)({a},c({n}))', ''), (f'jax.jit(lambda u,k:u*k,static_argnums=1)({a},2)', ''),
          (f'jax.jit(lambda u:jax.jit(lambda s:jax.jit(jnp.cos)(s)*s)(u))({a})', ''), (f'jax.jit(lambda u,t:t)({a},c(2))', ''),
          (f'jax.jit(lambda u,t:(t*2.,u,u))({a},c(2))', ''), (f'jax.jit(lambda d:dict(p=d["q"]*2.,r=d["s"][0]))(dict(q={a},s=[{a}[:2],c(1)]))', ''),
          (f'jax.jit(lambda u:u[jnp.array([2,0])])({a})', ''), (f'jax.jit(lambda u:jnp.where(u>0.9,u,0.))({a})', ''),
          (f'jax.jit(lambda u,i:u[i])({a},1)', ''), (f'jax.jit(lambda u,i:u.at[i].set(0.))({a},2)', ''), (f'jax.jit(lambda u,i:jnp.roll(u,i))({a},2)', ''),
          (f'jax.jit(lambda u:lax.stop_gradient(u)*u)({a})', ''), (f'lax.stop_gradient({a})*{a}', ''), (f'lax.stop_gradient({a})', ''),
          (f'jax.named_call(lambda u:jnp.sin(u),name="zzz")({a})', ''), (f'jax.jit(jnp.vectorize(lambda u:jnp.sin(u)*u))({a})', ''),
          (f'jax.closure_convert(lambda u:u*{a},{a})[0]({a},*jax.closure_convert(lambda u:u*{a},{a})[1])', '')]
    # custom derivative rules
    for u, second in ((a, f'c({n})'), (a, a), (f'c({n})', a), (f'{a}[:,None]', a)):
        L += [(f'CJ({u})', ''), (f'CJ2({u},{second})', ''), (f'CJ2({second},{u})', ''), (f'CJN({u},3)', ''), (f'CJM({u})', ''), (f'CJM({u})[0]*CJM({u})[1]', ''),
              (f'CJ(CJ({u}))', ''), (f'CJR({u})', ''), (f'CJIDX({u})', ''), (f'CV({u})', R if a in u else ''), (f'CV2({u},{second})', R), (f'jax.jit(CJ)({u})', '')]
    L += [(f'jax.nn.{fn}({a})', '') for fn in ('relu', 'relu6', 'silu', 'gelu', 'elu', 'selu', 'softplus', 'log_sigmoid', 'leaky_relu', 'hard_tanh', 'celu', 'glu' if n % 2 == 0 else 'mish', 'softmax', 'log_softmax', 'standardize', 'squareplus')]
    # rematerialization
    L += [(f'jax.checkpoint(lambda u:jnp.sin(u)*u)({a})', ''), (f'jax.checkpoint(lambda u:(u*{a},u.sum()))({a})', ''), (f'jax.checkpoint(lambda u,k:u*k)({a},c({n}))', ''),
          (f'jax.checkpoint(lambda u,k:u*k)(c({n}),{a})', ''), (f'jax.checkpoint(jax.checkpoint(lambda u:jnp.exp(u@w({n},{n}))))({a})', ''), (f'jax.checkpoint(lambda u:u[::-1])({a})', ''),
          (f'jax.checkpoint(lambda u:c({n}))({a})', ''), (f'jax.checkpoint(lambda u:u.at[0].set(0.))({a})', '')]
    # nested vectorization
    L += [(f'jax.vmap(jnp.sin)({a})', ''), (f'jax.vmap(lambda u:u*{a})({a})', ''), (f'jax.vmap(lambda u:u*{a},out_axes=1)({a})', ''), (f'jax.vmap(lambda u,k:u*k,in_axes=(0,None))({a},c(2))', ''),
          (f'jax.vmap(jax.vmap(lambda u,k:u*k,(None,0)),(0,None))({a},{a})', ''), (f'jax.vmap(lambda u:u.sum())(jnp.outer({a},{a}))', ''), (f'jax.vmap(lambda u,i:u[i],(None,0))({a},jnp.array([2,0]))', ''),
          (f'jax.vmap(lambda u,i:u.at[i].set(0.),(None,0))({a},jnp.array([2,0]))', ''), (f'jax.vmap(CJ)({a})', ''), (f'jax.vmap(jax.jit(lambda u:(u,u**2)))({a})', ''),
          (f'jax.vmap(lambda u,q:u@q,(None,0))({a},w(2,{n},{n}))', ''), (f'jax.vmap(lambda q:q@{a},1,1)(w({n},2,{n}))', ''), (f'jax.vmap(lambda u,s:jnp.dot(u,s))(jnp.outer({a},c(2)),jnp.outer({a},{a})[:,:2])', ''),
          (f'jax.vmap(lambda u:jnp.where(u>0.9,u,0.))({a})', ''), (f'jax.vmap(lambda u:lax.cond(u>0.9,jnp.sin,jnp.cos,u))({a})', ''), (f'jax.vmap(lambda u:jnp.linalg.det(u))(jnp.outer(jnp.ones(2),{a}[:2])[:,:,None]*w(2,2,2))', ''),
          (f'jax.vmap(lambda u:jnp.cumsum(u),1,1)(jnp.outer({a},{a}))', ''), (f'jax.vmap(lambda u:lax.dynamic_slice(u,(1,),(2,)))(jnp.outer({a},{a}))', ''), (f'jax.vmap(lambda i:lax.dynamic_slice({a},(i,),(2,)))(jnp.arange(2))', '')]
    # nested differentiation
    L += [(f'jax.grad(lambda u:jnp.sin(u).sum())({a})', ''), (f'jax.grad(lambda u:(u*{a}**2).sum())({a})', ''), (f'jax.jvp(jnp.sin,({a},),({a},))', ''), (f'jax.jacfwd(lambda u:jnp.sin(u@w({n},2)))({a})', ''),
          (f'jax.hessian(lambda u:(u**3).sum()*u[0])({a})', ''), (f'jax.value_and_grad(lambda u:jnp.prod(u))({a})', ''), (f'jax.jacrev(lambda u:u*u[::-1])({a})', ''), (f'jax.linearize(jnp.cos,{a})[1]({a})', ''),
          (f'jax.vjp(lambda u:u**2,{a})[1]({a})[0]', ''), (f'jax.grad(lambda u:jax.nn.silu(u).sum())({a})', R), (f'jax.grad(lambda u:jax.nn.sigmoid(u).sum())({a})', ''), (f'jax.jvp(jax.nn.softplus,({a},),(c({n}),))', R), (f'jax.grad(lambda u:jnp.logaddexp(u,u**2).sum())({a})', R), (f'jax.grad(lambda u:jax.checkpoint(lambda s:jnp.sin(s)*s)(u).sum())({a})', ''),
          (f'jax.grad(lambda u:lax.scan(lambda h,x:(h*x,None),u,c(2))[0].sum())({a})', R), (f'jax.grad(lambda u:lax.scan(lambda h,x:(h*h*x,None),u,c(2))[0].sum())({a})', R)]
    # others that may be rejected
    L += [(f'lax.associative_scan(jnp.add,{a})', ''), (f'lax.associative_scan(jnp.multiply,{a},reverse=True)', ''), (f'lax.reduce({a},0.5,lambda p,q:p*q+0.*p,(0,))', R), (f'lax.reduce({a},np.float64(0.),lax.add,(0,))', ''),
          (f'lax.reduce_window({a},0.,lax.add,(2,),(1,),"VALID")', R), (f'lax.reduce_window({a},-np.inf,lax.max,(2,),(1,),"SAME")', R), (f'lax.top_k({a},2)[0]', R),
          (f'lax.custom_root(lambda z:z**3-{a},{a},lambda f,z0:jnp.cbrt({a}),lambda g,y:y/g(1.))', R), (f'lax.custom_linear_solve(lambda z:z*c({n}),{a},lambda mv,b_:b_/c({n}))', R),
          (f'jax.pure_callback(lambda u:np.sin(u),jax.ShapeDtypeStruct(({n},),np.float64),{a})', R), (f'SIDE({a})*{a}', R), (f'jnp.piecewise({a},[{a}<0.8,{a}>=0.8],[jnp.sin,jnp.cos])', R),
          (f'lax.platform_dependent({a},cpu=jnp.sin,default=jnp.sin)', R), (f'lax.optimization_barrier({a})*2.', R), (f'lax.conv({a}.reshape(1,1,{n}),c(1,1,2),(1,),"VALID")', R), (f'jnp.interp({a},np.array([0.,1.,3.]),np.array([0.,2.,1.]))', R),
          (f'lax.reduce_precision({a},11,52)', R), (f'jnp.polyval(c(3),{a})', R), (f'jnp.polyval(np.array([2.,.3,1.]),{a},unroll=3)', R), (f'jnp.polyval({a},c(2))', R), (f'lax.linalg.cholesky(jnp.outer({a},{a})+3.*jnp.eye({n}))', R), (f'jnp.linalg.eigh(jnp.outer({a},{a})+jnp.diag(jnp.arange({n})))[0]', R),
          (f'jnp.linalg.qr(jnp.outer({a},{a})+jnp.eye({n}))[1]', R), (f'jnp.linalg.svd(jnp.diag({a})+w({n},{n}),compute_uv=False)', R), (f'jnp.fft.fft({a}).real', R), (f'jnp.all({a}>0.)*{a}', ''), (f'jnp.any({a}>.9)*{a}', ''), (f'lax.cumsum({a}>0.5,0)*{a}' if False else f'jnp.cumsum({a}>0.5)*{a}', ''),
          (f'lax.rng_bit_generator(jnp.zeros(4,np.uint32),({n},))[1].astype(float)*1e-10*{a}', ''), (f'jax.random.normal(jax.random.PRNGKey(0),({n},))*{a}', ''), (f'jax.random.permutation(jax.random.PRNGKey(1),{a})', R)]
    for e, k in L:
        yield ('other', e, k)


def install():
    """named helpers with custom rules (truthful)"""
    if 'CJ' in prog.NS:
        return
    jnp = jax.numpy

    @jax.custom_jvp
    def CJ(u):
        return jnp.sin(u) * u

    CJ.defjvp(lambda p, t: (jnp.sin(p[0]) * p[0], (jnp.cos(p[0]) * p[0] + jnp.sin(p[0])) * t[0]))

    @jax.custom_jvp
    def CJ2(u, k):
        return u**2 * k

    CJ2.defjvp(lambda p, t: (p[0] ** 2 * p[1], 2 * p[0] * p[1] * t[0] + p[0] ** 2 * t[1]))

    def cjn(u, k):
        return u**k

    CJN = jax.custom_jvp(cjn, nondiff_argnums=(1,))
    CJN.defjvp(lambda k, p, t: (p[0] ** k, k * p[0] ** (k - 1) * t[0]))

    @jax.custom_jvp
    def CJM(u):
        return jnp.sin(u), u * u.sum()

    CJM.defjvp(lambda p, t: ((jnp.sin(p[0]), p[0] * p[0].sum()), (jnp.cos(p[0]) * t[0], t[0] * p[0].sum() + p[0] * t[0].sum())))

    @jax.custom_jvp
    def CJR(u):
        return jnp.sqrt((u**2).sum())

    CJR.defjvp(lambda p, t: (CJR(p[0]), (p[0] * t[0]).sum() / CJR(p[0])))

    @jax.custom_jvp
    def CJIDX(u):
        return u[::-1]

    CJIDX.defjvp(lambda p, t: (p[0][::-1], t[0][::-1]))

    @jax.custom_vjp
    def CV(u):
        return jnp.sin(u)

    CV.defvjp(lambda u: (jnp.sin(u), u), lambda u, g: (g * jnp.cos(u),))

    @jax.custom_vjp
    def CV2(u, k):
        return u * k

    CV2.defvjp(lambda u, k: (u * k, (u, k)), lambda r, g: (g * r[1], g * r[0]))

    def SIDE(u):
        jax.debug.callback(lambda q: None, u)
        return u

    prog.NS.update(CJ=CJ, CJ2=CJ2, CJN=CJN, CJM=CJM, CJR=CJR, CJIDX=CJIDX, CV=CV, CV2=CV2, SIDE=SIDE)
    # reverse-rule functions cannot be differentiated forward: the reference uses the plain body
    prog_ref.update(prog.NS, CV=jnp.sin, CV2=lambda u, k: u * k)


prog_ref = {}


def roots(tier):
    names = ['id', 'dense', 'prod', 'constpart'] if tier == 'quick' else list(OPS)
    full = ['0e', '0j', '1e', '2j', '100e', '100j'] if tier == 'quick' else ['0e', '0j', '1e', '1j', '2e', '2j', '3e', '4j', '100e', '100j']
    i = 0
    for name in names:
        ins, pre, a, n = OPS[name]
        for kind, e, cls in it.chain(scan_programs(a, n, tier), other_programs(a, n)):
            i += 1
            tm = full
            if tier == 'quick' and kind == 'scan' and cls == 'carry':
                tm = [['0e', '1j', '100e'], ['0j', '2e', '100j']][i % 2]
            elif tier == 'quick' and name != 'id':
                tm = [['0e', '1j', '100e'], ['0j', '2e', '100j']][i % 2]
            yield {'in': ins, 'prog': pre + [e], 'tm': tm, 'cls': cls}


def allowed(cls, th):
    if cls == 'reject':
        return lambda e: True
    if cls in ('carry',):
        # the sparsity of a carried value may change from one iteration to the next
        return (lambda e: 'parsity mismatch' in str(e)) if th > 0 else None
    if cls == 'scan':
        return None
    return None


def run(case, seed, tier):
    from core import Result

    install()
    CTX['seed'] = seed
    f, args = build(case), inputs(case)
    total = Result(key=[])
    ref = None
    saved = prog.NS
    try:
        if 'CV' in case['prog'][-1]:
            prog.NS = prog_ref
        try:
            ref = prog.reference(f, args)
        except Exception as e:
            return Result(skip=f'reference rejects: {type(e).__name__}: {str(e)[:60]}')
    finally:
        prog.NS = saved
    for th, mode in prog.single(prog.parse_tm(case['tm']), case):
        r = run_fn(f, args, [(th, mode)], allow=allowed(case['cls'], th), ref=ref)
        total.runs += r.runs
        total.bad += r.bad
        total.key += r.key or []
        total.skip = r.skip
        total.nontrivial = r.nontrivial
    return total
