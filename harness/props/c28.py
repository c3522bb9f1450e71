"""C28: MLP models compute the layer-by-layer network they describe."""
from functools import lru_cache

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import gen
from core import Group, SEED, SHARD, TIER, X64
from ev import A
from magpi.model import MLP, mlp

TOL = 1e-12 if X64 else 2e-5
ACT = {"default": (None, np.tanh), "sin": (jnp.sin, np.sin), "cube": (lambda x: x**3 / 3 - x, lambda x: x**3 / 3 - x), "softsign": (lambda x: x / (1 + jnp.abs(x)), lambda x: x / (1 + np.abs(x))),
       "shift": (lambda x: jnp.cos(x) + 2.0, lambda x: np.cos(x) + 2.0)}


def pool(n):
    r = gen.rng(SEED, SHARD, 28)
    out = []
    for i in range(n):
        hidden = [int(v) for v in r.integers(1, 9 if r.integers(3) else 40, int(r.integers(0, 5)))]
        if (i + SHARD) % 6 == 0:
            hidden = [int(v) for v in r.integers(1, 4, 12)]      # two-digit layer numbers
        out.append(dict(layers=[int(r.integers(1, 6)), *hidden, int(r.choice([1, 1, 2, 3, 5, 17]))], act=list(ACT)[int(r.integers(len(ACT)))], cont=["list", "tuple"][int(r.integers(2))], how=["mlp", "mlp", "MLP"][int(r.integers(3))]))
    return out


confs = gen.pick(*pool(8 if TIER == "quick" else 80))


@lru_cache(None)
def _built(layers, act, cont, how, seed):
    lay = list(layers) if cont == "list" else tuple(layers)
    a = ACT[act][0]
    key = jax.random.PRNGKey(seed)
    if how == "mlp":
        return mlp(key, lay) if a is None else mlp(key, lay, a)
    m = MLP(lay[1:]) if a is None else MLP(lay[1:], a)
    return m, m.init(key, jnp.zeros(layers[0]))


def built(conf, seed):
    return _built(tuple(conf["layers"]), conf["act"], conf["cont"], conf["how"], seed)


@lru_cache(None)
def applier(layers, act, cont, how):
    model, _ = _built(layers, act, cont, how, 0)
    return jax.jit(lambda p, x: model.apply(p, x))


def order(params, ctx, layers):
    """(kernel, bias) pairs in network order"""
    import re
    L = params["params"]

    def num(k):
        m = re.findall(r"\d+", k)
        return (0, int(m[-1])) if m else (1, 0)
    names = sorted(L, key=num)
    ctx.true(len(names) == len(layers) - 1, "number of layers", got=names, layers=layers)
    for i, k in enumerate(names):
        ctx.shape(L[k]["kernel"], (layers[i], layers[i + 1]), f"kernel of {k}")
        ctx.shape(L[k]["bias"], (layers[i + 1],), f"bias of {k}")
    return names


cases = st.fixed_dictionaries(dict(conf=confs, seed=st.integers(0, 3), batch=gen.pick([], [4], [2, 3], [1], [5, 1], [70], [2, 1, 3]), scale=gen.pick(0.5, 1.0, 2.0), xseed=gen.seeds, eager=gen.pick(False, False, False, True), fresh=st.booleans()))


def forward(Ws, x, act):
    for i, (W, b) in enumerate(Ws):
        x = x @ W + b
        if i < len(Ws) - 1:
            x = act(x)
    return x


def chk(c, ctx):
    lay = c["conf"]["layers"]
    model, params = built(c["conf"], c["seed"])
    names = order(params, ctx, lay)
    r = gen.rng(c["xseed"], 1)
    if c["fresh"]:
        # arbitrary parameters (biases are zero after initialisation)
        params = jax.tree_util.tree_map(lambda v: A(np.round(r.normal(0, c["scale"], v.shape) / np.sqrt(max(1, v.shape[0])), 3)), params)
    x = np.round(r.uniform(-2, 2, (*c["batch"], lay[0])), 3)
    f = model.apply if c["eager"] else applier(tuple(lay), c["conf"]["act"], c["conf"]["cont"], c["conf"]["how"])
    y = ctx.arr(f(params, A(x)), "output").astype(float)
    Ws = [(np.asarray(params["params"][k]["kernel"], float), np.asarray(params["params"][k]["bias"], float)) for k in names]
    e = forward(Ws, x, ACT[c["conf"]["act"]][1])
    if lay[-1] == 1:
        e = e[..., 0]
    ctx.shape(y, e.shape, "output")
    amp = np.prod([1 + np.linalg.norm(W, 2) for W, _ in Ws]) if c["conf"]["act"] != "cube" else np.nan
    if c["conf"]["act"] == "cube":
        # cubic growth: compare only while values are moderate
        h, big = x, 1.0
        for i, (W, b) in enumerate(Ws):
            h = h @ W + b
            big = max(big, np.abs(h).max())
            h = ACT["cube"][1](h)
        amp = np.prod([1 + np.linalg.norm(W, 2) * (1 + big**2) for W, _ in Ws])
        if amp > 1e8 or not np.isfinite(amp):
            ctx.trivial()
            amp = np.inf
    if np.isfinite(amp):
        ctx.close(y, e, TOL, "output", scale=1 + np.abs(e).max() + min(amp, 1e4 if X64 else 30 + 0.02 * amp), layers=lay)
    # entrywise in the batch
    if c["batch"]:
        i = tuple(int(r.integers(n)) for n in c["batch"])
        single = np.asarray(f(params, A(x[i])), float)
        ctx.shape(single, np.shape(y[i]), "single input")
        if np.isfinite(amp):
            ctx.close(single, y[i], TOL, "a batch entry differs from the single input", scale=1 + np.abs(e).max() + min(amp, 1e4 if X64 else 30 + 0.02 * amp))
    ctx.label(c["conf"]["act"], f"hidden{len(lay) - 2}", f"out{lay[-1]}", f"batch{len(c['batch'])}", c["conf"]["how"], c["conf"]["cont"], "init_params" if not c["fresh"] else "random_params")
    ctx.count(max(1, y.size))


i_cases = st.fixed_dictionaries(dict(conf=confs, seed=st.integers(0, 10**6)))


def chk_init(c, ctx):
    lay, act = c["conf"]["layers"], ACT[c["conf"]["act"]][0]
    key = jax.random.PRNGKey(c["seed"])
    tl = jax.tree_util.tree_leaves
    m1, p1 = mlp(key, list(lay), act)
    _, p2 = mlp(key, tuple(lay), act)
    _, p3 = mlp(jax.random.PRNGKey(c["seed"] + 1), list(lay), act)
    names = order(p1, ctx, lay)
    for u, v in zip(tl(p1), tl(p2)):
        ctx.true(np.array_equal(np.asarray(u), np.asarray(v)), "the same key gives other parameters")
    for k in names:
        W1, W3 = np.asarray(p1["params"][k]["kernel"]), np.asarray(p3["params"][k]["kernel"])
        ctx.finite(W1, "initial kernel")
        ctx.true(not np.array_equal(W1, W3), "initialisation ignores the key", layer=k)
        ctx.true(W1.std() > 0 if W1.size > 1 else True, "constant initial kernel", layer=k)
    # kernels of different layers are not copies of each other
    for a in range(len(names)):
        for b in range(a):
            u, v = (np.asarray(p1["params"][names[q]]["kernel"]) for q in (a, b))
            ctx.true(u.shape != v.shape or not np.array_equal(u, v), "two layers start with the same kernel")
    ctx.label(f"hidden{len(lay) - 2}")
    ctx.count(1)


GROUPS = [
    Group("forward", cases, chk, 640, 12000),
    Group("init", i_cases, chk_init, 48, 800),
]
