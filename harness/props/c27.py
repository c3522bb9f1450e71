"""C27: spline activations add a trainable spline to the base activation."""
from functools import lru_cache

import jax
import jax.numpy as jnp
import numpy as np
from flax import linen as nn
from hypothesis import strategies as st

import gen
from core import Group, SEED, SHARD, TIER, X64
from ev import A
from magpi.spline import SplineActivation, make_grid
from props.bspl import cox, dcox

DT = np.float64 if X64 else np.float32
ACT = {"default": (None, np.tanh), "sin": (jnp.sin, np.sin), "identity": (lambda x: x, lambda x: x), "zero": (jnp.zeros_like, np.zeros_like)}
F = 3


def pool(n):
    r = gen.rng(SEED, SHARD, 27)
    ch = lambda *v: v[int(r.integers(len(v)))]
    out = [dict(nodes=None, degree=None, power=None, lo=None, hi=None, act="default", grid=bool(r.integers(2)))]
    for _ in range(n - 1):
        k = ch(0, 1, 2, 3, 4)
        lo = ch(-3.0, -1.0, 0.5, -7.25, 10.0)
        out.append(dict(nodes=k + 2 + ch(0, 1, 2, 3, 5, 8), degree=k, power=ch(1.0, 2.0, 1.5, 3.0, 1.2), lo=lo, hi=lo + ch(1.0, 4.0, 6.0, 0.5), act=ch(*ACT), grid=ch(True, False)))
    return out


confs = gen.pick(*pool(7 if TIER == "quick" else 60))


def full(conf):
    d = dict(nodes=14, degree=3, power=2.0, lo=-3.0, hi=3.0)
    return {k: (conf[k] if conf[k] is not None else d[k]) for k in d}


@lru_cache(None)
def _module(items, init):
    conf = dict(items)
    names = dict(nodes="nodes", degree="degree", power="grid_power", lo="node_min", hi="node_max")
    kw = {names[k]: conf[k] for k in names if conf[k] is not None}
    if ACT[conf["act"]][0] is not None:
        kw["activation"] = ACT[conf["act"]][0]
    if conf["grid"]:
        kw["parameterize_grid"] = True
    if init == "normal":
        kw["coef_init"] = nn.initializers.normal(1.0)
    return SplineActivation(**kw)


def module(conf, init="zeros"):
    return _module(tuple(sorted(conf.items())), init)


def ref_grid(f):
    s = np.linspace(-1, 1, f["nodes"])
    s = np.sign(s) * np.abs(s) ** f["power"]
    return f["lo"] + (s + 1) / 2 * (f["hi"] - f["lo"])


def xs(c, shape, f, grids):
    """inputs inside (away from knots when the spline jumps there) and outside of the grid"""
    r = gen.rng(c["seed"], 1)
    w = f["hi"] - f["lo"]
    x = r.uniform(f["lo"] - 0.3 * w, f["hi"] + 0.3 * w, shape)
    x = np.where(r.random(shape) < 0.1, f["hi"] + w * r.integers(1, 9, shape), x)
    # keep a distance from knots: there splines of low degree jump and rounding of the knots decides
    for j in range(shape[-1]):
        g = grids[j]
        xj = x[..., j]
        for _ in range(3):
            near = np.abs(xj[..., None] - g).min(-1) < 2e-3 * w / f["nodes"]
            xj = np.where(near, xj + 0.37 * w / f["nodes"] * r.random(xj.shape), xj)
        xj = np.where(np.abs(xj[..., None] - g).min(-1) < 1e-4 * w / f["nodes"], f["hi"] + w, xj)
        x[..., j] = xj
    return x.astype(DT).astype(float)


SHAPES = [(F,), (5, F), (2, 3, F), (4, 1), (1,), (2, 1, 3, F), (40, 2), (1, 1, F), (2, 2, 1, 2, F), (3, 9)]
cases = st.fixed_dictionaries(dict(conf=confs, seed=gen.seeds, shape=gen.pick(*[list(s) for s in SHAPES]), jit=st.booleans(), custom=st.booleans()))


def find(V, col, ctx, what):
    lv = jax.tree_util.tree_leaves(V.get(col, {}))
    ctx.true(len(lv) == 1, f"{what}: expected one array in the collection {col!r}", got=len(lv))
    return lv[0]


def put(V, col, value):
    return dict(V, **{col: jax.tree_util.tree_map(lambda _: A(value), V[col])})


@lru_cache(None)
def applier(mod):
    return jax.jit(lambda V, x: mod.apply(V, x))


@lru_cache(None)
def initer(mod):
    return jax.jit(lambda k, x: mod.init(k, x))


def setup(c, ctx, init="zeros"):
    f = full(c["conf"])
    mod = module(c["conf"], init)
    nf = c["shape"][-1]
    V = dict(initer(mod)(jax.random.PRNGKey(c["seed"]), jnp.zeros(tuple(c["shape"]))))
    C = find(V, "params", ctx, "coefficients")
    ctx.shape(C, (nf, f["nodes"] - f["degree"] - 1), "coefficients")
    g0 = ref_grid(f)
    grids = np.tile(g0, (nf, 1))
    if c["conf"]["grid"]:
        G = find(V, "grids", ctx, "grid")
        ctx.shape(G, (nf, f["nodes"]), "grid")
        ctx.close(G, grids, 30 * ctx.eps, "initial grid", scale=1 + np.abs(g0).max())
    else:
        ctx.true("grids" not in V, "a fixed grid is not a variable")
    return f, mod, V, np.asarray(C, float), grids


def cond(f, grids):
    """amplification of knot rounding: 1 / smallest support of a B-spline"""
    k = f["degree"]
    if k == 0:
        return 0.0
    return max(k * (1 + np.abs(g).max()) / max((g[k:] - g[:-k]).min(), 1e-12) for g in grids)


def chk(c, ctx):
    f, mod, V, C0, grids = setup(c, ctx)
    nf, k = c["shape"][-1], f["degree"]
    r = gen.rng(c["seed"], 2)
    if c["custom"] and c["conf"]["grid"]:
        grids = np.stack([np.sort(np.round(r.uniform(f["lo"] - 1, f["hi"] + 1, f["nodes"]), 3)) + 0.01 * np.arange(f["nodes"]) for _ in range(nf)])
        V = put(V, "grids", grids)
        ctx.label("custom_grid")
    gg = [np.asarray(find(V, "grids", ctx, "grid"), float)[j] if c["conf"]["grid"] else grids[j] for j in range(nf)]
    x = xs(c, tuple(c["shape"]), f, gg)
    ap = applier(mod) if c["jit"] else mod.apply
    base = ACT[c["conf"]["act"]][1](x)
    B = np.stack([cox(x[..., j], gg[j], k) for j in range(nf)], -2)      # (..., nf, n)
    tol = 30 * ctx.eps * (4 + cond(f, gg)) * (k + 1)

    def out(C):
        return ctx.shape(ap(put(V, "params", C), A(x)), tuple(c["shape"]), "activation").astype(float)
    C1, C2 = (np.round(r.uniform(-2, 2, C0.shape), 2) for _ in range(2))
    ref = lambda C: base + (B * C).sum(-1)
    y0 = ctx.shape(ap(V, A(x)), tuple(c["shape"]), "activation")
    ctx.true((C0 == 0).all(), "default coefficients are not zero", got=C0)
    ctx.close(y0, base, 10 * ctx.eps, "activation with zero coefficients", scale=1 + np.abs(base))
    y1, y2 = out(C1), out(C2)
    ctx.close(y1, ref(C1), tol, "activation", scale=3 + np.abs(base), degree=k)
    ctx.close(out(2 * C1 - C2) - base, 2 * (y1 - base) - (y2 - base), tol, "not linear in the coefficients", scale=8 + 4 * np.abs(base))
    # coefficients of one feature do not touch the others; nothing happens outside of the grid
    C3 = C1.copy()
    C3[0] += 1.5
    d = np.abs(out(C3) - y1)
    ctx.true((d[..., 1:] == 0).all(), "a coefficient of one feature changes another feature")
    outside = np.stack([(x[..., j] < gg[j][0]) | (x[..., j] > gg[j][-1]) for j in range(nf)], -1)
    ctx.close(y1[outside], base[outside], 10 * ctx.eps, "not the base activation outside of the grid", scale=1 + np.abs(base[outside]))
    ctx.trivial(not (np.abs(y1 - base) > 1e-3).any())
    ctx.label(f"degree{k}", c["conf"]["act"], "grid_variable" if c["conf"]["grid"] else "grid_fixed", f"shape{len(c['shape'])}", "jit" if c["jit"] else "eager", f"nodes{f['nodes']}")
    ctx.count(x.size)


e_cases = st.fixed_dictionaries(dict(conf=confs, seed=gen.seeds, shape=gen.pick(*[list(s) for s in SHAPES[1:3] + SHAPES[5:]])))


def chk_entry(c, ctx):
    """batch entries and scalars, derivatives, user supplied initialisation"""
    f, mod, V, C0, grids = setup(c, ctx, "normal")
    nf, k = c["shape"][-1], f["degree"]
    ctx.true(C0.size < 2 or np.abs(C0).max() > 0, "the given initializer is not used")
    x = xs(c, tuple(c["shape"]), f, grids)
    ap = applier(mod)
    y = np.asarray(ap(V, A(x)), float)
    i = (0,) * (x.ndim - 1)
    tol = 30 * ctx.eps * (4 + cond(f, grids)) * (k + 1)
    ctx.close(np.asarray(ap(V, A(x[i])), float), y[i], tol, "a batch entry differs from the single input", scale=3 + np.abs(C0).max())
    p = gen.rng(c["seed"], 5).permutation(x.shape[0])
    ctx.close(np.asarray(ap(V, A(x[p])), float), y[p], tol, "batch entries are not independent", scale=3 + np.abs(C0).max())
    B = np.stack([cox(x[..., j], grids[j], k) for j in range(nf)], -2)
    ctx.close(y, ACT[c["conf"]["act"]][1](x) + (B * C0).sum(-1), tol, "activation with given initializer", scale=3 + np.abs(C0).max() + np.abs(x))
    # a scalar is one feature
    xc = float(x[i][0])
    V1 = dict(mod.init(jax.random.PRNGKey(c["seed"]), A(xc)))
    c1 = np.asarray(find(V1, "params", ctx, "coefficients"), float)
    ctx.shape(c1, (1, f["nodes"] - k - 1), "coefficients of a scalar input")
    ys = np.asarray(mod.apply(V1, A(xc)), float)
    ctx.true(ys.size == 1, "scalar input", shape=ys.shape)
    ctx.close(ys.ravel()[0], ACT[c["conf"]["act"]][1](np.array(xc)) + (cox(xc, grids[0], k) * c1[0]).sum(), tol, "scalar input", scale=3 + np.abs(c1).max() + abs(xc))
    # derivative by input and coefficients
    w = np.round(gen.rng(c["seed"], 6).uniform(-1, 1, x.shape), 2)
    gV, gx = grader(mod)(V, A(x), A(w))
    gc = np.asarray(jax.tree_util.tree_leaves(gV["params"])[0], float)
    ctx.close(gc, np.einsum("bf,bfn->fn", w.reshape(-1, nf), B.reshape(-1, nf, B.shape[-1])), tol, "derivative by the coefficients", scale=float(w.size))
    D = np.stack([dcox(x[..., j], grids[j], k) for j in range(nf)], -2)
    h = 1e-30
    da = np.imag(ACT[c["conf"]["act"]][1](x + 1j * h)) / h if c["conf"]["act"] != "zero" else np.zeros_like(x)
    mg = max(1 / max(np.diff(g)[np.diff(g) > 0].min(), 1e-9) for g in grids)
    ctx.close(gx, w * (da + (D * C0).sum(-1)), 1e4 * ctx.eps * (k + 1), "derivative by the input", scale=1 + np.abs(D).max() + k * mg**(2 if k > 1 else 1))
    other = np.asarray(find(dict(initer(mod)(jax.random.PRNGKey(c["seed"] + 1), jnp.zeros(tuple(c["shape"])))), "params", ctx, "coefficients"), float)
    again = np.asarray(find(dict(initer(mod)(jax.random.PRNGKey(c["seed"]), A(x))), "params", ctx, "coefficients"), float)
    ctx.true(np.array_equal(again, C0), "initialisation depends on more than the key")
    ctx.true(not np.array_equal(other, C0), "initialisation ignores the key")
    ctx.label(f"degree{k}", c["conf"]["act"], "grid_variable" if c["conf"]["grid"] else "grid_fixed")
    ctx.count(x.size)


@lru_cache(None)
def grader(mod):
    return jax.jit(jax.grad(lambda V, x, w: jnp.sum(mod.apply(V, x) * w), argnums=(0, 1)))


g_cases = st.fixed_dictionaries(dict(start=gen.num(-9, 9, 2), len=gen.num(0.05, 12, 2), power=gen.pick(1.0, 2.0, 0.5, 3.0, 1.3, 2, 1, 5.0), num=st.integers(2, 21), jit=gen.pick(False, False, True)))


def chk_grid(c, ctx):
    lo, hi, p, n = c["start"], c["start"] + c["len"], c["power"], c["num"]
    g = (jax.jit(make_grid, static_argnums=(3,)) if c["jit"] else make_grid)(lo, hi, p, n)
    g = ctx.shape(g, (n,), "grid").astype(float)
    s = 1 + abs(lo) + abs(hi)
    tol = 8 * ctx.eps
    ctx.close(g[[0, -1]], np.array([lo, hi]), tol, "grid does not start and end at the bounds", scale=s)
    # for powers below 1 rounding of the middle node is amplified
    ctx.true((np.diff(g) >= 0).all(), "grid decreases", grid=g)
    ctx.close(g + g[::-1], np.full(n, lo + hi), (2 * tol if p >= 1 else np.sqrt(ctx.eps) * 4), "grid is not symmetric about its center", scale=s)
    u = np.abs(np.linspace(-1, 1, n)) ** p
    ctx.close(np.abs(g - (lo + hi) / 2), u * (hi - lo) / 2, (4 * tol if p >= 1 else np.sqrt(ctx.eps) * 4), "grid is not spaced by the power", scale=s)
    ctx.label(f"power{p}", "odd" if n % 2 else "even")
    ctx.trivial(n < 3)
    ctx.count(n)


GROUPS = [
    Group("activation", cases, chk, 480, 10000),
    Group("entries", e_cases, chk_entry, 160, 4000),
    Group("grid", g_cases, chk_grid, 480, 10000),
]
