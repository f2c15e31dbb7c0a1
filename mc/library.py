"""Operations of the numerical library that have no dedicated rule, or reach the rules through unusual programs (x has shape (3,))."""
import jax
import jax.numpy as jnp
import jax.scipy as jsp
import numpy as np
from jax import lax
from prog import c, w


E = {
'rand': lambda x: x*jax.random.normal(jax.random.key(0),x.shape),
'rand_old': lambda x: x*jax.random.normal(jax.random.PRNGKey(0),x.shape),
'randscan': lambda x: lax.scan(lambda h,k:(h*jax.random.normal(k,h.shape),h),x,jax.random.split(jax.random.key(0),3)),
'randscan_old': lambda x: lax.scan(lambda h,k:(h*jax.random.uniform(k,h.shape),h),x,jax.random.split(jax.random.PRNGKey(0),3)),
'randcarry': lambda x: lax.scan(lambda h,_:((h[0]*jax.random.uniform(h[1],h[0].shape),jax.random.split(h[1])[0]),h[0]),(x,jax.random.PRNGKey(0)),None,length=2)[1],
'randcarrykey': lambda x: lax.scan(lambda h,_:((h[0]*jax.random.uniform(h[1],h[0].shape),jax.random.split(h[1])[0]),h[0]),(x,key),None,length=2)[1],
'dropout': lambda x: jnp.where(jax.random.bernoulli(jax.random.key(0),0.5,x.shape),x,0.)*2,
'perm': lambda x: jax.random.permutation(jax.random.key(0),x),
'choice': lambda x: jax.random.choice(jax.random.key(0),x,(5,)),
'print': lambda x: (jax.debug.print('{}',x.sum()) or 1)*x**2,
'printx': lambda x: (jax.debug.print('hi') or 1)*x**2,
'barrier': lambda x: lax.optimization_barrier(jnp.sin(x))*x,
'pure': lambda x: x*jax.pure_callback(lambda a:np.sin(a),jax.ShapeDtypeStruct((3,),jnp.float64),jnp.arange(3.)),
'fft': lambda x: jnp.abs(jnp.fft.fft(x*c(3)))**2,
'rfft': lambda x: jnp.fft.irfft(jnp.fft.rfft(jnp.sin(x))*c(2),3),
'rw_sum': lambda x: lax.reduce_window(jnp.sin(x),0.,lax.add,(2,),(1,),'VALID'),
'rw_max': lambda x: lax.reduce_window(jnp.sin(x),-jnp.inf,lax.max,(2,),(1,),'VALID'),
'topk': lambda x: lax.top_k(jnp.sin(x),2)[0],
'assoc': lambda x: lax.associative_scan(jnp.multiply,jnp.sin(x)),
'assoc2': lambda x: lax.associative_scan(lambda a,b:(a[0]*b[0],a[1]*b[0]+b[1]),(x,x**2)),
'interp': lambda x: jnp.interp(x,jnp.arange(4.),jnp.arange(4.)**2),
'interp2': lambda x: jnp.interp(jnp.array([.1,.9]),jnp.arange(3.),x**2),
'pct': lambda x: jnp.percentile(x**2,40.),
'median': lambda x: jnp.median(x**2),
'chol': lambda x: jnp.linalg.cholesky(jnp.outer(x,x)+2*jnp.eye(3)),
'svd': lambda x: jnp.linalg.svd(jnp.outer(x,x[::-1])+jnp.diag(x*c(3)),compute_uv=False),
'eigh': lambda x: jnp.linalg.eigvalsh(jnp.outer(x,x)+jnp.diag(x*c(3))),
'qr': lambda x: jnp.linalg.qr(jnp.outer(x,x)+jnp.diag(x*c(3)))[1],
'tri': lambda x: jsp.linalg.solve_triangular(jnp.tril(jnp.outer(x,x)+jnp.eye(3)),x,lower=True),
'tri2': lambda x: jsp.linalg.solve_triangular(jnp.tril(w(3,3)+2*jnp.eye(3)),x,lower=True),
'expm': lambda x: jsp.linalg.expm(jnp.outer(x,x)),
'redprec': lambda x: lax.reduce_precision(jnp.sin(x),8,40),
'resize': lambda x: jax.image.resize(jnp.sin(x),(5,),'linear'),
'erfinv': lambda x: lax.erf_inv(x*0.3),
'lgamma': lambda x: jsp.special.gammaln(x+1), 'digamma': lambda x: jsp.special.digamma(x+1),
'bessel': lambda x: jsp.special.i0e(x), 'onehot': lambda x: jax.nn.one_hot(jnp.array([2,0]),3)@jnp.sin(x),
'lred': lambda x: lax.reduce(jnp.sin(x),0.,lax.add,(0,)), 'lredmul': lambda x: lax.reduce(jnp.sin(x),1.,lax.mul,(0,)),
'lredmax': lambda x: lax.reduce(jnp.sin(x),-jnp.inf,lax.max,(0,)),
'lredgen': lambda x: lax.reduce(jnp.sin(x),0.,lambda a,b:jnp.hypot(a,b),(0,)),
'polyval': lambda x: jnp.polyval(c(3),x), 'polyval2': lambda x: jnp.polyval(x,c(2)),
'nextafter': lambda x: jnp.sin(x)*lax.nextafter(1.,2.), 'trapz': lambda x: jnp.trapezoid(x**2),
'unwrap': lambda x: jnp.unwrap(x**2), 'search': lambda x: jnp.sin(x)*jnp.searchsorted(jnp.arange(3.),1.5),
'rem': lambda x: jnp.remainder(x,0.7)**2, 'fmod': lambda x: jnp.fmod(x,0.7)*x, 'round': lambda x: jnp.round(x)*x, 'copysign': lambda x: jnp.copysign(x,-1.)**3,
'floor': lambda x: (x//0.3)*x, 'heaviside': lambda x: jnp.heaviside(x,.5)*x, 'logit': lambda x: jsp.special.logit(x*0.3+.1), 'glu': lambda x: jax.nn.glu(jnp.concatenate([x,x[:1]])),
'hswish': lambda x: jax.nn.hard_swish(x), 'selu': lambda x: jax.nn.selu(x-0.7), 'celu': lambda x: jax.nn.celu(x-.7), 'leaky': lambda x: jax.nn.leaky_relu(x-.7),'relu6': lambda x: jax.nn.relu6(x),'mish':lambda x: jax.nn.mish(x),
'sharding': lambda x: lax.with_sharding_constraint(jnp.sin(x),jax.sharding.SingleDeviceSharding(jax.devices()[0])),
'ckname': lambda x: jax.checkpoint(lambda y: jax.ad_checkpoint.checkpoint_name(jnp.sin(y),'a')*y)(x),
'ckname0': lambda x: jax.ad_checkpoint.checkpoint_name(jnp.sin(x),'a')*x,
'convg': lambda x: lax.conv_general_dilated(jnp.sin(x)[None,None],w(2,1,2),(1,),'SAME'),
'convg2': lambda x: lax.conv_general_dilated(jnp.sin(x)[None,None],x[None,None,:2],(1,),'VALID'),
'vectorize': lambda x: jnp.vectorize(lambda a,b:a@b,signature='(n),(n)->()')(w(2,3),jnp.sin(x)),
'apply': lambda x: jnp.apply_along_axis(lambda a: a.sum()*a,0,jnp.outer(x,x)),
'pw': lambda x: jnp.piecewise(x,[x<.5,x>=.5],[lambda y:y**2,lambda y:jnp.sin(y)]),
'select': lambda x: jnp.select([x<.3,x<.9],[x**2,x**3],jnp.sin(x)),
'choose': lambda x: jnp.choose(jnp.array([0,1,0]),[x,x**2]),
'cov': lambda x: jnp.cov(jnp.stack([x,x**2])), 'corr': lambda x: jnp.corrcoef(jnp.stack([x,jnp.sin(x)])),
'diff': lambda x: jnp.diff(x**2), 'grad': lambda x: jnp.gradient(x**2), 'ediff': lambda x: jnp.ediff1d(x**3),
'lsq': lambda x: jnp.linalg.lstsq(w(3,2),x)[0], 'pinv': lambda x: jnp.linalg.pinv(w(3,2))@x,'mpow': lambda x: jnp.linalg.matrix_power(jnp.outer(x,x),3),'multidot': lambda x: jnp.linalg.multi_dot([jnp.outer(x,x),w(3,2),w(2,3)]),
'bincount': lambda x: jnp.bincount(jnp.array([0,1,0]),weights=jnp.sin(x),length=3),
'hist': lambda x: jnp.zeros(3).at[jnp.array([0,1,0])].max(x),
'ball': lambda x: jax.random.orthogonal(jax.random.PRNGKey(0),3)@x,
'fori_dyn': lambda x: lax.fori_loop(0,3,lambda i,h:h.at[i].set(h[i]*2),x),
'dus': lambda x: lax.dynamic_update_slice(jnp.zeros(5),x**2,(1,)),
'custom_lin': lambda x: lax.custom_linear_solve(lambda v: (w(3,3)+3*jnp.eye(3))@v, jnp.sin(x), lambda mv,b: jnp.linalg.solve(w(3,3)+3*jnp.eye(3),b), transpose_solve=lambda mv,b: jnp.linalg.solve((w(3,3)+3*jnp.eye(3)).T,b)),
'solve': lambda x: jnp.linalg.solve(w(3,3)+3*jnp.eye(3),jnp.sin(x)), 'solve2': lambda x: jnp.linalg.solve(jnp.outer(x,x)+3*jnp.eye(3),x),
'root': lambda x: jnp.roots(c(3)).real.sum()*x, 'nan': lambda x: jnp.nan_to_num(x**2), 'clip': lambda x: jnp.clip(x,.3,.9)**2,
'tile': lambda x: jnp.tile(x,2)*c(6), 'deconv': lambda x: jnp.convolve(x,c(2)), 'corrl': lambda x: jnp.correlate(x,x),'block': lambda x: jnp.block([[jnp.outer(x,x),w(3,2)],[w(2,3),w(2,2)]])**2,
'meshgrid': lambda x: jnp.meshgrid(x,x**2), 'vander': lambda x: jnp.vander(x), 'tri_': lambda x: jnp.triu(jnp.outer(x,x),1)[jnp.triu_indices(3,1)], 'diagf': lambda x: jnp.diagonal(jnp.outer(x,x)), 'trace': lambda x: jnp.trace(jnp.outer(x,x)),
'lse': lambda x: jsp.special.logsumexp(x,b=c(3)), 'xlogy': lambda x: jsp.special.xlogy(c(3),x), 'entr': lambda x: jsp.special.entr(x), 'rel': lambda x: jsp.special.rel_entr(x,c(3)), 'zeta': lambda x: jsp.special.zeta(x+2,1.5), 'polyg': lambda x: jsp.special.polygamma(1,x+1.),'expi': lambda x: jsp.special.expi(x), 'betaln': lambda x: jsp.special.betaln(x+1,2.),'ndtr': lambda x: jsp.special.log_ndtr(x),'sph': lambda x: jsp.special.sph_harm(jnp.array([1]),jnp.array([2]),x[:1],x[1:2],n_max=2).real,
'normlog': lambda x: jsp.stats.norm.logpdf(x), 'mvn': lambda x: jsp.stats.multivariate_normal.logpdf(x,jnp.zeros(3),jnp.eye(3)*2),
'legendre': lambda x: jnp.stack([jnp.ones_like(x),x,1.5*x**2-.5]), 'hess': lambda x: jax.hessian(lambda y: jnp.prod(jnp.sin(y)))(x).sum(),
'lin': lambda x: jax.linearize(jnp.sin,x)[1](x), 'vjp': lambda x: jax.vjp(lambda y:y**3,x)[1](x)[0],
'vmapgrad': lambda x: jax.vmap(jax.grad(lambda y: y**3*x.sum()))(x),
'cumlog': lambda x: lax.cumlogsumexp(x), 'cummax': lambda x: lax.cummax(x**2),
'argmaxsel': lambda x: x[jnp.argmax(x)]**2, 'sortm': lambda x: lax.sort((x**2,jnp.sin(x)),num_keys=1),'argsel': lambda x: jnp.sin(x)[jnp.argsort(x)],
'pmapish': lambda x: jnp.unstack(jnp.sin(x)), 'split': lambda x: jnp.split(x**2,[1]),
'int': lambda x: (x>0.5).astype(int).sum()*x, 'bitcast': lambda x: x*lax.bitcast_convert_type(jnp.float32(1.5),jnp.int32)*1e-9,
}

# Declared limitations (integer results of dependent values, loops whose carry or scanned input becomes dependent, matrices of
# linear systems, values needed at trace time) and double precision callbacks
for name in 'choose perm polyval polyval2 topk interp argmaxsel root fori_dyn solve2 argsel expm pure randscan'.split():
    del E[name]
for name in 'choice ball dropout'.split():
    E['rand_' + name] = E.pop(name)
