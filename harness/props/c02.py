"""C02: primitive solids are positive inside, zero on and negative outside."""
import jax
import numpy as np
from hypothesis import strategies as st

import gen
from core import Group, X64
from ev import A, batch
from magpi import r_fun
from props import rsys
from props.c01 import check_signs

size = st.one_of(gen.num(0.2, 5, 2), st.integers(1, 4), gen.num(0.2, 5, 2), gen.pick(0.01, 0.07, 17, 60.0, 400.0))
form = gen.pick("list", "tuple", "np", "jnp")


def to(v, f):
    return {"list": lambda: list(v), "tuple": lambda: tuple(v), "np": lambda: np.array(v), "jnp": lambda: jax.numpy.asarray(v)}[f]()


cuboid_cases = st.fixed_dictionaries(dict(
    edges=gen.pick(1, 2, 3, 4, 2, 3, 5, 6).flatmap(lambda n: st.lists(size, min_size=n, max_size=n)), cube=st.booleans(), dim=gen.pick(1, 2, 3, 4, 3, 6), center=st.booleans(),
    sys=st.one_of(st.none(), rsys.sys_any()), form=form, seed=gen.seeds, mode=gen.pick("vmap", "vmap", "jit", "loop", "eager")))


def box_points(seed, lb, ub, n=40):
    """interior, exterior, face, edge and corner points and the center"""
    r = gen.rng(seed)
    d = len(lb)
    w = ub - lb
    X = lb + w * r.uniform(-0.7, 1.7, (n, d))
    inside = lb + w * r.uniform(0.02, 0.98, (n, d))
    X[: n // 4] = inside[: n // 4]
    # put random subsets of coordinates exactly on the bounds
    m = r.random((n, d)) < 0.4
    m[: n // 8] = False
    side = r.random((n, d)) < 0.5
    X[n // 4: n // 2] = inside[n // 4: n // 2]
    on = np.where(side, lb, ub)
    sel = np.zeros(n, bool)
    sel[n // 4: 3 * n // 4] = True
    X = np.where(m & sel[:, None], on, X)
    X[-1] = (lb + ub) / 2
    X[-2] = lb
    X[-3] = ub
    X[-4] = ub + 20 * w
    return X


def chk_cuboid(c, ctx):
    kw = {} if c["sys"] is None else dict(r_system=rsys.build(c["sys"]))
    spec = c["sys"] or ["named", "r0"]
    if c["cube"]:
        d, e = c["dim"], np.full(c["dim"], float(c["edges"][0]))
        a = c["edges"][0]
        f = r_fun.cube(a if c["form"] in ("list", "tuple") else to(a, c["form"]), c["center"], **kw)
    else:
        d, e = len(c["edges"]), np.array(c["edges"], float)
        f = r_fun.cuboid(to(c["edges"], c["form"]), centering=c["center"], **kw)
    if c["sys"] is not None and c["sys"][0] == "alpham" and d > 2:
        d = 2  # unnormalized: values overflow in long reductions
        if not c["cube"]:
            f = r_fun.cuboid(to(c["edges"][:2], c["form"]), centering=c["center"], **kw)
        e = e[:2]
    lb = -e / 2 if c["center"] else np.zeros(d)
    ub = lb + e
    X = box_points(c["seed"], lb, ub)
    if not X64:
        X = X.astype(np.float32).astype(float)
        lb, ub = lb.astype(np.float32).astype(float), ub.astype(np.float32).astype(float)
    v, n = batch(f, X, c["mode"])
    X = X[:n]
    ctx.shape(v, (n,), "cuboid ADF")
    ctx.label("cube" if c["cube"] else "cuboid", f"dim{d}", "centered" if c["center"] else "corner", c["form"])
    L = np.stack([ub - X, X - lb], -1).reshape(n, -1)
    L = np.where(np.abs(L) < 1e-6, 0.0, L) if not X64 else L
    t = ["leaf", 0]
    for i in range(1, 2 * d):
        t = ["and", t, ["leaf", i]]
    ref, err = rsys.model(t, spec, L)
    # rounding of the operands themselves
    err = err + (1e-14 if X64 else 2e-6) * (1 + np.abs(ref)) * 4
    check_signs(ctx, v.astype(float), err, rsys.kleene(t, np.sign(L)), ref, X, dict(edges=e, centered=c["center"], sys=str(spec)))


smooth_cases = st.fixed_dictionaries(dict(
    kind=gen.pick("sphere", "cylinder", "ellipsoid"), dim=gen.pick(1, 2, 3, 4, 2, 3, 6), r=st.lists(size, min_size=6, max_size=6),
    form=form, seed=gen.seeds, mode=gen.pick("vmap", "vmap", "jit", "loop", "eager")))


def chk_smooth(c, ctx):
    d = c["dim"]
    r = gen.rng(c["seed"])
    k = c["kind"]
    if k == "ellipsoid":
        ax = c["r"][:d]
        f = r_fun.ellipsoid(to(ax, c["form"]))
        semi = np.array(ax, float)
    else:
        if k == "cylinder":
            d = max(d, 2)
        a = c["r"][0]
        f = (r_fun.sphere if k == "sphere" else r_fun.cylinder)(a if c["form"] in ("list", "tuple") else to(a, c["form"]))
        semi = np.full(d if k == "sphere" else 2, float(a))
    m = len(semi)
    U = r.normal(size=(40, m))
    U /= np.linalg.norm(U, axis=-1, keepdims=True)
    rho = np.concatenate([r.uniform(0, 0.98, 12), np.ones(12), r.uniform(1.02, 4, 12), [0.0, 0.0, 1e-3, 30.0]])
    P = U * rho[:, None] * semi
    P[20:22] = np.eye(m)[[0, m - 1]] * semi * r.choice([-1, 1], (2, 1))
    P[rho == 0] = 0.0
    X = P if m == d else np.concatenate([P, r.uniform(-5, 5, (40, d - m))], -1)
    v, n = batch(f, X, c["mode"], 40)
    ctx.count(n)
    ctx.label(k, f"dim{d}", c["form"])
    ctx.shape(v, (n,), f"{k} ADF")
    ctx.finite(v, f"{k} ADF")
    sign = np.sign(1 - rho)
    tol = (1e-12 if X64 else 1e-5) * semi.max()
    bad = np.where(sign == 0, np.abs(v) > tol, np.sign(v) != sign)
    if bad.any():
        i = int(np.argmax(bad))
        ctx.fail(f"{k}: wrong sign", point=X[i], relative_radius=rho[i], value=v[i], size=semi)
    g, _ = batch(jax.jacfwd(f) if c["seed"] % 2 else jax.grad(f), X, "vmap")
    ctx.shape(g, (n, d), f"{k} gradient")
    if not np.isfinite(g).all():
        i = int(np.argmin(np.isfinite(g).all(-1)))
        ctx.fail(f"{k}: gradient not finite", point=X[i], gradient=g[i], size=semi)


scalar_cases = st.fixed_dictionaries(dict(a=size, center=st.booleans(), kind=gen.pick("cube", "sphere", "ellipsoid"),
                                          seed=gen.seeds, pform=gen.pick("float", "jnp0", "np0")))


def chk_scalar(c, ctx):
    """One-dimensional solids also accept plain scalars as points."""
    a = c["a"]
    f = dict(cube=lambda: r_fun.cube(a, c["center"]), sphere=lambda: r_fun.sphere(a), ellipsoid=lambda: r_fun.ellipsoid(a))[c["kind"]]()
    lb, ub = ((0.0, float(a)) if not c["center"] else (-a / 2, a / 2)) if c["kind"] == "cube" else (-float(a), float(a))
    for x in gen.rng(c["seed"]).uniform(lb - a, ub + a, 6).tolist() + [lb, ub, (lb + ub) / 2]:
        s = min(x - lb, ub - x)
        if 0 < abs(s) < 1e-3:
            continue
        p = {"float": x, "jnp0": A(x), "np0": np.float64(x)}[c["pform"]] if c["kind"] != "ellipsoid" else A(x)
        v = ctx.finite(f(p), f"{c['kind']} ADF")
        ctx.true(v.size == 1, "scalar result expected", shape=v.shape)
        v = float(v.ravel()[0])
        ctx.count(1)
        ok = abs(v) < (1e-12 if X64 else 1e-5) * (1 + a) if s == 0 else np.sign(v) == np.sign(s)
        ctx.true(ok, f"{c['kind']}: wrong sign", x=x, lb=lb, ub=ub, value=v)
    ctx.label("scalar-" + c["kind"])


GROUPS = [
    Group("cuboid", cuboid_cases, chk_cuboid, 500, 10000),
    Group("smooth", smooth_cases, chk_smooth, 300, 6000),
    Group("scalar", scalar_cases, chk_scalar, 120, 1500),
]
