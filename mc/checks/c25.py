"""Neural-network wave functions: every network assembled from the standard blocks."""
import itertools as it

import jax
import jax.numpy as jnp
import numpy as np
import prog
from jax import lax
from prog import CTX, build, c, inputs, parse_tm, run_fn, single, w

BOUNDS = dict(
    quick='all networks of one of 8 input features, up to two of 14 layers, one of 12 readouts and one of 4 correlation factors for 2 or 3 particles: all pairs of feature and readout, of layer and readout, of two layers, and of readout and correlation factor, at thresholds that rotate through 0, 1, 3, 6, 100, eager and compiled; weights for a part of them',
    thorough='as quick, all combinations of feature, two layers, readout and correlation factor, four thresholds each',
)
CHUNK = 6


def dist(d):
    """pair distances whose diagonal is safe to differentiate"""
    n = d.shape[0]
    e = jnp.eye(n)
    return jnp.linalg.norm(d + e[..., None], axis=-1) * (1.0 - e)


R = lambda d=3: w(2, d, k=7) * 0.7
FEATURES = {
    'r': lambda r: r,
    'ae': lambda r: jnp.concatenate([(r[:, None] - R()).reshape(r.shape[0], -1), jnp.linalg.norm(r[:, None] - R(), axis=-1)], -1),
    'norm': lambda r: jnp.linalg.norm(r[:, None] - R(), axis=-1),
    'ee': lambda r: jnp.concatenate([r, dist(r[:, None] - r).mean(1, keepdims=True), (r[:, None] - r).sum(0)], -1),
    'fourier': lambda r: jnp.concatenate([jnp.sin(r @ w(3, 2)), jnp.cos(r @ w(3, 2))], -1),
    'log': lambda r: jnp.log1p(jnp.linalg.norm(r[:, None] - R(), axis=-1)),
    'centre': lambda r: r - r.mean(0),
    'gauss': lambda r: jnp.exp(-((r[:, None] - R()) ** 2).sum(-1)),
}


def attention(r, h):
    d = h.shape[-1]
    q, k, v = (jnp.einsum('nd,dhk->nhk', h, w(d, 2, 2, k=i)) for i in range(3))
    a = jax.nn.softmax(jnp.einsum('nhk,mhk->hnm', q, k) / jnp.sqrt(2.0), -1)
    return jnp.einsum('hnm,mhk->nhk', a, v).reshape(h.shape[0], 4) @ w(4, d)


def scanned(r, h):
    d = h.shape[-1]

    def step(x, p):
        return x * p[0] + 0.3 * p[1], None

    return lax.scan(step, h, (c(2, d), c(2, d, k=1)))[0]


LAYERS = {
    'dense': lambda r, h: jnp.tanh(h @ w(h.shape[-1], 3) + w(3)),
    'res': lambda r, h: h + jax.nn.silu(h @ w(h.shape[-1], h.shape[-1])),
    'mean': lambda r, h: jnp.concatenate([h, jnp.broadcast_to(h.mean(0), h.shape)], -1),
    'spin': lambda r, h: jnp.concatenate([h, jnp.broadcast_to(h[:1].mean(0), h.shape), jnp.broadcast_to(h[1:].mean(0), h.shape)], -1),
    'attention': lambda r, h: h + attention(r, h),
    'layernorm': lambda r, h: jax.nn.standardize(h, axis=-1, epsilon=0.1) * c(h.shape[-1]),
    'gate': lambda r, h: h * jax.nn.sigmoid(h @ w(h.shape[-1], h.shape[-1])),
    'pair': lambda r, h: jnp.einsum('ijk,jk->ik', jnp.exp(-dist(r[:, None] - r))[..., None] * c(h.shape[-1]), h),
    'vmapped': lambda r, h: jax.vmap(lambda x: jax.nn.gelu(x @ w(h.shape[-1], 3)) * x.sum())(h),
    'scan': scanned,
    'jit': lambda r, h: jax.jit(lambda x: jax.nn.softplus(x) - 0.1 * x[::-1])(h),
    'remat': lambda r, h: jax.checkpoint(lambda x: jnp.sin(x) @ w(h.shape[-1], 2))(h),
    'max': lambda r, h: jnp.concatenate([h, jnp.broadcast_to(h.max(0), h.shape)], -1),
    'feat': lambda r, h: jnp.concatenate([h, r], -1) ** 2,
}


def orbitals(r, h, k=1, k0=0):
    n = r.shape[0]
    o = (h @ w(h.shape[-1], k * n, k=k0)).reshape(n, k, n)
    env = jnp.einsum('iak,kaj->iaj', jnp.exp(-jnp.linalg.norm(r[:, None] - R(), axis=-1) * c(2))[:, None] * jnp.ones((k, 1)), c(2, k, n))
    return jnp.swapaxes(o * env, 0, 1) + 0.5 * jnp.eye(n)


def lse(r, h):
    s, l = jnp.linalg.slogdet(orbitals(r, h, 2))
    return jax.nn.logsumexp(l, b=s * c(2), return_sign=True)


READOUT = {
    'slogdet': lambda r, h: jnp.linalg.slogdet(orbitals(r, h)[0])[1],
    'both': lambda r, h: jnp.linalg.slogdet(orbitals(r, h, 2)),
    'lse': lse,
    'detsum': lambda r, h: jnp.linalg.det(orbitals(r, h, 2)) @ c(2),
    'spins': lambda r, h: sum(jnp.linalg.slogdet(orbitals(r, h)[0, s, s])[1] for s in (slice(0, 1), slice(1, None))),
    'sum': lambda r, h: jnp.tanh(h @ w(h.shape[-1], 2)).sum(),
    'prod': lambda r, h: jnp.log(jnp.prod(1.2 + jnp.tanh(h).sum(-1) ** 2)),
    'complex': lambda r, h: jnp.linalg.slogdet(orbitals(r, h)[0] + 1j * orbitals(r, h, 1, 3)[0]),
    'phase': lambda r, h: jnp.log(1.5 + h.sum(-1) ** 2).sum() + 1j * (h @ w(h.shape[-1])).sum(),
    'abs': lambda r, h: jnp.log(jnp.abs(jnp.sum(jnp.exp(1j * h) * c(*h.shape)))),
    'energy': lambda r, h: 1.0 / (1.0 + dist(r[:, None] - r)).sum() + (h**2).mean(),
    'nodes': lambda r, h: jnp.concatenate([h, r], -1),
}


def cusp(r):
    d = dist(r[:, None] - r)
    return jnp.sum(jnp.triu(-0.5 / (1.0 + d), 1))


JASTROW = {
    'no': lambda r, y: y,
    'cusp': lambda r, y: jax.tree_util.tree_map(lambda x: x + cusp(r), y),
    'scale': lambda r, y: jax.tree_util.tree_map(lambda x: x * jnp.exp(-0.2 * (r**2).sum()), y),
    'nuclear': lambda r, y: jax.tree_util.tree_map(lambda x: x - jnp.linalg.norm(r[:, None] - R(), axis=-1).sum(), y),
}


def network(f, layers, o, j):
    def psi(r):
        h = FEATURES[f](r)
        for l in layers:
            h = LAYERS[l](r, h)
        return JASTROW[j](r, READOUT[o](r, h))

    return psi


def networks(tier):
    if tier == 'thorough':
        for f, o, j in it.product(FEATURES, READOUT, JASTROW):
            for ls in [()] + [(l,) for l in LAYERS] + list(it.product(LAYERS, repeat=2)):
                yield f, ls, o, j
        return
    L = list(LAYERS)
    fs, os_, js = list(FEATURES), list(READOUT), list(JASTROW)
    i = 0
    for f, o in it.product(fs, os_):  # all pairs of feature, layer and readout
        yield f, (), o, js[i % 4]
        i += 1
    for l in L:
        for o in os_:
            yield fs[(i + i // 8) % 8], (l,), o, js[(i + i // 4) % 4]
            i += 1
    for l1, l2 in it.product(L, L):
        for k in range(1):
            yield fs[(i * 3 + k) % 8], (l1, l2), os_[(i * 5 + k * 7) % 12], js[(i + k) % 4]
            i += 1
    for o, j in it.product(os_, js[1:]):
        yield 'ee', ('attention',), o, j


def roots(tier):
    tms = [['0j', '6e'], ['100j'], ['3e', '1j'], ['6j'], ['0e', '100e'], ['9j']]
    for i, (f, ls, o, j) in enumerate(networks(tier)):
        tm = [['0j', '3e', '6j', '100e'], ['0e', '1j', '9e', '100j']][i % 2] if tier == 'thorough' else tms[i % 6]
        yield {'net': [f, list(ls), o, j], 'n': 2 + (i // 7) % 2, 'tm': tm, 'wt': i % 5 == 0}


def run(case, seed, tier):
    CTX['seed'] = seed
    f, ls, o, j = case['net']
    r = prog.inp((case['n'], 3), 1, signed=True)
    weights = None
    if case['wt']:
        weights = (0.7, np.full(r.size, 0.7))
    return run_fn(network(f, ls, o, j), (r,), single(parse_tm(case['tm']), case), weights=weights)
