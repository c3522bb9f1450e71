"""C26: B-spline bases satisfy the B-spline laws on every knot grid."""
from functools import lru_cache

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import gen
from core import Group, SEED, SHARD, TIER, X64
from ev import A
from magpi.spline import basis
from props.bspl import cox, dcox

DT = np.float64 if X64 else np.float32
NP = 24
LAYOUTS = ["shared", "features", "batched", "scalar"]
F = 3


def pool(n):
    """static configurations (degree, nodes, layout), different for every shard and seed"""
    r = gen.rng(SEED, SHARD, 26)
    out = []
    for i in range(n):
        k = (i + SHARD) % 6
        out.append([k, k + 2 + int(r.integers(0, 7) if r.integers(6) else r.integers(12, 30)), LAYOUTS[int(r.integers(4))]])
    return out


confs = gen.pick(*pool(8 if TIER == "quick" else 60))
knots = dict(conf=confs, seed=gen.seeds, lo=gen.pick(-1.0, -3.0, 0.0, 2.5, -40.0, 100.0), gaps=gen.pick("wide", "mixed", "tiny", "uniform", "integer"), size=gen.pick(1.0, 1.0, 1.0, 100.0, 0.03), repeat=gen.pick("none", "some", "many", "clamped", "double"))


def mk_knots(c, j=0):
    k, n, _ = c["conf"]
    r = gen.rng(c["seed"], 3, j)
    g = {"wide": lambda: r.uniform(0.1, 2, n - 1), "mixed": lambda: 10 ** r.uniform(-2, 0.3, n - 1), "tiny": lambda: 10 ** r.uniform(-3, 0, n - 1) * (0.02 if X64 else 0.3),
         "integer": lambda: r.integers(1, 4, n - 1).astype(float), "uniform": lambda: np.full(n - 1, 0.25)}[c["gaps"]]()
    if c["repeat"] in ("some", "many"):
        g[r.random(n - 1) < (0.25 if c["repeat"] == "some" else 0.7)] = 0.0
    elif c["repeat"] == "double":
        g[int(r.integers(n - 1))] = 0.0
    elif c["repeat"] == "clamped":
        g[:k] = 0.0
        g[n - 1 - k:] = 0.0
    z, lo = (1.0, np.floor(c["lo"])) if c["gaps"] == "integer" else (c.get("size", 1.0), c["lo"])
    return (z * (lo + np.concatenate([[0.0], np.cumsum(g)]))).astype(DT).astype(float)


def points(c, t, j=0):
    """knots, points close to knots, inner points and points outside"""
    r = gen.rng(c["seed"], 4, j)
    w = max(t[-1] - t[0], 0.5 * c.get("size", 1.0))
    u = r.uniform(t[0] - 0.2 * w, t[-1] + 0.2 * w, NP)
    kk = r.choice(t, NP)
    sel = r.integers(0, 6, NP)
    x = np.where(sel == 0, kk, u)
    x = np.where(sel == 1, np.nextafter(kk.astype(DT), DT(np.inf)).astype(float), x)
    x = np.where(sel == 2, np.nextafter(kk.astype(DT), DT(-np.inf)).astype(float), x)
    i = r.integers(0, len(t) - 1, NP)
    x = np.where(sel == 3, t[i] + (t[i + 1] - t[i]) * r.random(NP), x)
    x[0], x[1] = t[0], t[-1]
    x[2], x[3] = t[0] - 10 * w, t[-1] + 10 * w
    if c["gaps"] == "integer" and c["seed"] % 2:
        x = np.floor(x)
    x[(x != 0) & (np.abs(x) < 1e-20)] *= 0.0   # XLA flushes subnormals to zero
    return x.astype(DT).astype(float)


def arrange(c):
    """Inputs and reference inputs: list of (index into the output, x, knots)"""
    k, n, lay = c["conf"]
    if lay in ("shared", "scalar"):
        t = mk_knots(c)
        return points(c, t), t, t[None], np.zeros(NP, int)
    T = np.stack([mk_knots(c, j) for j in range(F)])
    X = np.stack([points(c, T[j], j) for j in range(F)], -1)   # (NP, F)
    return X, T, T, None


def call(c, x, t):
    k, n, lay = c["conf"]
    if lay == "scalar":
        return np.stack([np.asarray(basis(A(v), A(t), degree=k)) for v in x[:6]])
    if lay == "batched":
        return basis(A(x), A(np.broadcast_to(t, (x.shape[0], *t.shape))), degree=k)
    if c["gaps"] == "integer" and c["seed"] % 3 == 0:  # knots given as integers, now and then the points too
        i = lambda v: jnp.asarray(np.asarray(v), dtype=jnp.int32)
        return basis(i(x) if np.array_equal(x, np.floor(x)) else A(x), i(t), degree=k)
    if k == 3 and c["seed"] % 2:
        return basis(A(x), A(t))   # the default degree
    return basis(A(x), A(t), degree=k)


def reference(c, x, T, f):
    k, n, lay = c["conf"]
    if lay == "shared":
        return f(x, T[0])
    if lay == "scalar":
        return f(x[:6], T[0])
    return np.stack([f(x[:, j], T[j]) for j in range(F)], 1)


cases = st.fixed_dictionaries(knots)


def chk(c, ctx):
    k, n, lay = c["conf"]
    x, t, T, _ = arrange(c)
    B = ctx.arr(call(c, x, t), "basis").astype(float)
    ctx.shape(B, ((6,) if lay == "scalar" else x.shape) + (n - k - 1,), "basis")
    ctx.finite(B, "basis")
    e = reference(c, x, T, lambda x, t: cox(x, t, k))
    ctx.close(B, e, (k + 1) * 40 * ctx.eps * (1 + abs(c["lo"]) * 0), "B-spline", scale=1.0, degree=k)
    ctx.true((B >= 0).all(), "negative B-spline value", value=B.min())
    # support and partition of unity, stated directly on the knots
    xs = x[:6, None] if lay == "scalar" else x if x.ndim == 2 else x[:, None]
    Bs = B if B.ndim == 3 else B[:, None]
    for j, tj in enumerate(T):
        xj, Bj = xs[:, j], Bs[:, j]
        i = np.arange(n - k - 1)
        out = (xj[:, None] < tj[i]) | (xj[:, None] >= tj[i + k + 1])
        ctx.true((Bj[out] == 0).all(), "B-spline does not vanish outside its knot span")
        if n - k - 1 > k:
            inner = (xj >= tj[k]) & (xj < tj[n - k - 1])
            ctx.close(Bj[inner].sum(-1), np.ones(inner.sum()), (k + 1) * 40 * ctx.eps, "sum on the inner interval", scale=1.0)
            if inner.any():
                ctx.label("inner")
    ctx.trivial(not (e > 0).any())
    ctx.label(f"degree{k}", lay, c["repeat"], c["gaps"])
    ctx.count(B.size)


@lru_cache(None)
def jac(k, ad, order):
    J = jax.jacfwd if ad == "fwd" else jax.jacrev
    f = lambda x, t: basis(x, t, degree=k)
    d = J(f)
    if order == 2:
        d = (jax.jacrev if ad == "fwd" else jax.jacfwd)(d)
    return jax.jit(jax.vmap(d, (0, None)))


@lru_cache(None)
def vjp_batch(k):
    """the derivative of a weighted sum over a batch, as in training"""
    return jax.jit(jax.grad(lambda x, t, w: jnp.sum(basis(x, t, degree=k) * w)))


d_cases = st.fixed_dictionaries(dict(knots, ad=gen.pick("fwd", "rev", "train"), order=gen.pick(1, 1, 2)))


def min_gap(t):
    g = np.diff(np.sort(t))
    g = g[g > 0]
    return g.min() if len(g) else 1.0


def chk_d(c, ctx):
    k, n, lay = c["conf"]
    c = dict(c, conf=[k, n, "shared" if lay in ("shared", "scalar") else "features"])
    x, t, T, _ = arrange(c)
    order = c["order"] if c["ad"] != "train" else 1
    e = reference(c, x, T, lambda x, t: dcox(x, t, k, order))
    if c["ad"] == "train":
        w = np.round(gen.rng(c["seed"], 9).uniform(-1, 1, e.shape), 2)
        g = vjp_batch(k)(A(x), A(t), A(w))
        e2 = (e * w).sum(-1)
    else:
        # one derivative per point: every feature shifted by the same amount
        def run(x, t):
            return jac(k, c["ad"], order)(A(x), A(t))
        g = run(x, t) if x.ndim == 1 else np.stack([np.asarray(run(x[:, j], t[j])) for j in range(F)], 1)
        e2 = e
    g = ctx.finite(g, f"derivative of order {order} ({c['ad']})", degree=k, repeat=c["repeat"])
    # rounding is relative to the size of the terms of the derivative recursion
    mg = min(min_gap(tj) for tj in T)
    s = 1 + np.abs(e).max() + (max(k, 1) / mg) ** order
    ctx.close(g, e2, (k + 1) * 200 * ctx.eps, f"derivative of order {order} ({c['ad']})", scale=s * (e.shape[-1] if c["ad"] == "train" else 1))
    ctx.trivial(not np.any(e))
    ctx.label(f"degree{k}", c["ad"], f"order{order}", c["repeat"], c["gaps"])
    ctx.count(g.size)


@lru_cache(None)
def gjac(k, ad):
    J = jax.jacfwd if ad == "fwd" else jax.jacrev
    return jax.jit(J(lambda t, x, w: jnp.sum(basis(x, t, degree=k) * w)))


g_cases = st.fixed_dictionaries(dict(knots, gaps=gen.pick("wide", "uniform", "integer"), ad=gen.pick("fwd", "rev")))


def chk_g(c, ctx):
    """The knots can be trained: derivatives by the knots."""
    k, n, _ = c["conf"]
    t = mk_knots(c)
    x = points(c, t)
    w = np.round(gen.rng(c["seed"], 9).uniform(-1, 1, (NP, n - k - 1)), 2)
    g = ctx.finite(gjac(k, c["ad"])(A(t), A(x), A(w)), "derivative by the knots", degree=k, repeat=c["repeat"])
    if (np.diff(t) > 0).all():
        e = np.array([np.imag((cox(x, t + 1j * 1e-30 * np.eye(n)[i], k) * w).sum()) / 1e-30 for i in range(n)])
        ctx.close(g, e, (k + 1) * 2000 * ctx.eps, "derivative by the knots", scale=1 + np.abs(e).max() + NP * (max(k, 1) / min_gap(t)))
        ctx.label("compared")
    ctx.label(f"degree{k}", c["ad"], c["repeat"])
    ctx.count(n)


GROUPS = [
    Group("values", cases, chk, 800, 12000),
    Group("derivative", d_cases, chk_d, 400, 6000),
    Group("knots", g_cases, chk_g, 240, 3000),
]
