"""Ways to execute a function on a batch: the same result is required of all of them."""
import jax
import jax.numpy as jnp
import numpy as np

from core import X64

DT = np.float64 if X64 else np.float32
MODES = ["vmap", "jit", "eager"]


def A(x):
    return jnp.asarray(x, dtype=DT)


def batch(f, X, mode, max_eager=12):
    """f applied to every row of X. 'eager' loops over (at most max_eager) rows; returns (values, rows used)."""
    X = A(X)
    if mode == "eager":
        X = X[:max_eager]
        return jax.tree_util.tree_map(lambda *v: np.stack([np.asarray(w) for w in v]), *[f(x) for x in X]), len(X)
    if mode == "loop":  # one jitted call per point
        g = jax.jit(f)
        X = X[:max_eager]
        return jax.tree_util.tree_map(lambda *v: np.stack([np.asarray(w) for w in v]), *[g(x) for x in X]), len(X)
    g = jax.vmap(f)
    if mode == "jit":
        g = jax.jit(g)
    return jax.tree_util.tree_map(np.asarray, g(X)), len(X)
