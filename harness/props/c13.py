"""C13: surface integrals depend on the surface, not on its parametrization."""
from functools import lru_cache

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import gen
from core import Group, X64
from ev import A
from magpi.integrate import gauss
from magpi.surface_integral import center, integrate_surface, integrate_surface_elements, midpoints
from props import patches as P

TOL = 1e-10 if X64 else 2e-4
GEO = 2e-6 if X64 else 2e-3
G = {n: gauss(n) for n in (4, 6)}
OUT = ["scalar", "vec", "tree", "const"]


def wave(c):
    return np.array(c["k"]) / max(1.0, P.mag(c["patch"]))


def size(c, tot):
    m = P.mag(c["patch"])
    return min(1.0, m * m) + 20 * tot * max(1.0, m * m)


def field(xp, x, k, s):
    """Scalar and vector field (x has the coordinates last)."""
    ph = (x * k).sum(-1)
    return xp.cos(ph) * s + x[..., 0] * x[..., 1], xp.stack([xp.sin(ph), x[..., 2] * s, x[..., 0] - x[..., 1] ** 2], -1)


def f_out(out, x, k, s):
    a, b = field(jnp, x, k, s)
    return {"scalar": a, "vec": b, "tree": dict(a=a, b=(b, a * 2)), "const": 1.0}[out]


def np_out(out, x, k, s):
    a, b = field(np, x, k, s)
    return {"scalar": a, "vec": b, "tree": dict(a=a, b=(b, a * 2)), "const": np.ones(a.shape)}[out]


def parts(c, lo=0.0, hi=1.0):
    r = gen.rng(c["seed"], 7)
    out = []
    for n in (3, 4):
        w = r.uniform(0.3, 1.0, n - 1)
        x = lo + (hi - lo) * np.concatenate([[0], np.cumsum(w) / w.sum()])
        out.append(np.round(x, 6))
    return out


base = dict(patch=P.patch, out=gen.pick(*OUT), g=gen.pick(4, 6), k=gen.vec(3, -1.5, 1.5, 1), s=gen.num(0.25, 2, 2),
            args=gen.pick("pos", "kw", "closure"), seed=gen.seeds, eager=gen.pick(False, False, False, True))


def call(fun, out, args, g, u, v, par, k, s, extra):
    """extra: the integrand also gets the element center."""
    kw = dict(method=G[g]) if g else {}
    if extra:
        wrap = lambda f: (lambda x, c, *a, **b: f(x, *a, **b))
    else:
        wrap = lambda f: f
    f0 = lambda x, k, s: f_out(out, x, k, s)
    if args == "pos":
        return fun(wrap(f0), par, u, v, k, s, **kw)
    if args == "kw":
        return fun(wrap(f0), par, u, v, k, s=s, **kw)
    return fun(wrap(lambda x: f0(x, k, s)), par, u, v, **kw)


@lru_cache(None)
def runner(which, kind, out, args, g):
    fun, extra = dict(surf=(integrate_surface, False), elem=(integrate_surface_elements, True))[which]

    def run(params, u, v, k, s):
        return call(fun, out, args, g, u, v, P.jax_map(kind, params), k, s, extra)
    return run, jax.jit(run)


def reference(c, u, v, g, mapping=None):
    """Composite Gauss values per element; returns tree of (cu, cv, ...) arrays and the total of |weight*area|."""
    nu, wu = P.gauss_nodes(u, g)
    nv, wv = P.gauss_nodes(v, g)
    U, V = nu[:, None, :, None], nv[None, :, None, :]
    X, a = P.np_map(c["patch"])(U, V)
    w = wu[:, None, :, None] * wv[None, :, None, :] * a
    F = np_out(c["out"], X, wave(c), c["s"])
    red = lambda z: (z * w.reshape(w.shape + (1,) * (z.ndim - 4))).sum((2, 3))
    return jax.tree_util.tree_map(red, F), np.abs(w).sum()


def compare(ctx, got, exp, tol, what, scale):
    tg, te = jax.tree_util.tree_structure(got), jax.tree_util.tree_structure(exp)
    ctx.true(tg == te, f"{what}: structure differs from the integrand's", got=str(tg), expected=str(te))
    for a, b in zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(exp)):
        ctx.close(a, b, tol, what, scale=scale)


def chk_value(c, ctx):
    u, v = parts(c)
    par = P.jax_params(c["patch"])
    kind = c["patch"]["kind"]
    k, s = A(wave(c)), A(c["s"])
    run, jrun = runner("surf", kind, c["out"], c["args"], c["g"])
    got = (run if c["eager"] else jrun)(par, A(u), A(v), k, s)
    ref, tot = reference(c, u, v, c["g"])
    total = jax.tree_util.tree_map(lambda z: z.sum((0, 1)), ref)
    scale = size(c, tot)
    compare(ctx, got, total, TOL, f"surface integral over {kind}", scale)
    # geometric truth: a much finer rule over the same patch
    fine, _ = reference(c, np.linspace(0, 1, 4), np.linspace(0, 1, 4), 12)
    compare(ctx, got, jax.tree_util.tree_map(lambda z: z.sum((0, 1)), fine), GEO if c["g"] == 6 else max(GEO, 1e-4), f"surface integral over {kind} (fine rule)", scale)
    # element integrals sum up to it, each belongs to its own element, row-major
    erun, ejrun = runner("elem", kind, c["out"], c["args"], c["g"])
    el = (erun if c["eager"] else ejrun)(par, A(u), A(v), k, s)
    compare(ctx, el, ref, TOL, "element integrals", scale)
    ctx.count(6)
    ctx.label(f"size{P.mag(c['patch'])}", kind, c["out"], c["args"], f"gauss{c['g']}", "eager" if c["eager"] else "jit")


@lru_cache(None)
def center_runner(kind):
    def run(params, u, v):
        m = P.jax_map(kind, params)
        el = integrate_surface_elements(lambda x, c: (c, jnp.ones(()), x), m, u, v, method=G[4])
        return el, midpoints(m, u, v), center(m, u[:2], v[:2])
    return jax.jit(run)


def chk_center(c, ctx):
    r = gen.rng(c["seed"], 3)
    u, v = np.sort(r.uniform(0, 1, c["nu"])), np.sort(r.uniform(0, 1, c["nv"]))
    u, v = u + np.arange(c["nu"]) * 0.05, v + np.arange(c["nv"]) * 0.05
    (cen, ar, fx), mid, c0 = center_runner(c["patch"]["kind"])(P.jax_params(c["patch"]), A(u), A(v))
    U, V = (u[1:] + u[:-1]) / 2, (v[1:] + v[:-1]) / 2
    X, _ = P.np_map(c["patch"])(U[:, None], V[None, :])
    ctx.close(mid, X, TOL, "midpoints", scale=5 * P.mag(c["patch"]))
    ctx.close(c0, X[0, 0], TOL, "center", scale=5 * P.mag(c["patch"]))
    ctx.close(np.asarray(cen) / np.asarray(ar)[..., None], X, TOL * 100, "center handed to the integrand", scale=5 * P.mag(c["patch"]))
    # area-weighted mean of x lies in the element's bounding ball: the integrand sees points of the same element
    corners = [P.np_map(c["patch"])(uu[:, None], vv[None, :])[0] for uu in (u[:-1], u[1:]) for vv in (v[:-1], v[1:])]
    rad = np.max([np.linalg.norm(q - X, axis=-1) for q in corners], 0)
    off = np.linalg.norm(np.asarray(fx) / np.asarray(ar)[..., None] - X, axis=-1)
    ctx.true((off <= 1.2 * rad + 1e-3 * P.mag(c["patch"])).all(), "element integral uses points of another element", off=off, rad=rad)
    ctx.label(c["patch"]["kind"], f"{c['nu']}x{c['nv']}")
    ctx.count(mid.size)


@lru_cache(None)
def rep_runner(kind, rep, out):
    def run(params, u, v, k, s, t):
        m = P.jax_map(kind, params)
        if rep == "affine":   # u = t0 + t1 * s
            h = lambda z: m(jnp.stack([t[0] + t[1] * z[0], t[2] + t[3] * z[1]]))
        elif rep == "swap":
            h = lambda z: m(jnp.stack([z[1], z[0]]))
        elif rep == "flip":
            h = lambda z: m(jnp.stack([1 - z[0], z[1]]))
        else:                 # nonlinear monotone
            h = lambda z: m(jnp.stack([(z[0] + t[0] * z[0] ** 2) / (1 + t[0]), z[1]]))
        return integrate_surface(lambda x: f_out(out, x, k, s), h, u, v, method=G[6])
    return jax.jit(run)


def chk_rep(c, ctx):
    r = gen.rng(c["seed"], 5)
    rep = c["rep"]
    u, v = parts(c)
    t = np.array([r.uniform(0.1, 0.6), 1, 0, 1])
    pu, pv = u, v
    if rep == "affine":
        t = np.array([r.uniform(-1, 1), r.uniform(0.5, 2), r.uniform(-1, 1), -r.uniform(0.5, 2)])
        pu, pv = (u - t[0]) / t[1], (v - t[2]) / t[3]
        pv = pv[::-1]
    elif rep == "swap":
        pu, pv = v, u
    got = rep_runner(c["patch"]["kind"], rep, c["out"])(P.jax_params(c["patch"]), A(pu), A(pv), A(wave(c)), A(c["s"]), A(t))
    fine, tot = reference(c, np.linspace(0, 1, 4), np.linspace(0, 1, 4), 12)
    compare(ctx, got, jax.tree_util.tree_map(lambda z: z.sum((0, 1)), fine), GEO * 10, f"reparametrized ({rep}) surface integral", size(c, tot))
    ctx.label(rep, c["patch"]["kind"])
    ctx.count(1)


GROUPS = [
    Group("value", st.fixed_dictionaries(base), chk_value, 400, 8000),
    Group("center", st.fixed_dictionaries(dict(patch=P.patch, seed=gen.seeds, nu=gen.pick(2, 3), nv=gen.pick(2, 4))), chk_center, 400, 8000),
    Group("reparam", st.fixed_dictionaries(dict(base, out=gen.pick("scalar", "vec"), rep=gen.pick("affine", "swap", "square", "flip"))), chk_rep, 240, 5000),
]
