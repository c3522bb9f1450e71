"""C15: magnetic surface charges match the outward-normal jump conditions."""
from functools import lru_cache

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import gen
from core import Group, X64
from ev import A
from geo import rot3
from magpi import r_fun
from magpi.surface_integral import scalar_potential_charge, vector_potential_charge

TOL = 1e-9 if X64 else 2e-3
KINDS = ["sphere", "halfspace", "ellipsoid", "cylinder", "box", "scaled", "implicit"]
NORMALIZED = ["sphere", "halfspace", "cylinder", "box", "ellipsoid_n"]


def adf_of(kind, g):
    """jax ADF; g = dict(o, n, r (3 radii), w)"""
    if kind == "sphere":
        return lambda x: r_fun.sphere(g["r"][0])(x - g["o"])
    if kind == "halfspace":
        return lambda x: jnp.dot(g["n"], g["o"] - x)
    if kind == "ellipsoid":   # positive inside, not normalized
        return lambda x: g["w"] * (1 - jnp.sum(((x - g["o"]) / g["r"]) ** 2))
    if kind == "ellipsoid_n":
        return lambda x: r_fun.normalize_1st_order(adf_of("ellipsoid", g))(x)
    if kind == "cylinder":
        return lambda x: r_fun.cylinder(g["r"][0])(x - g["o"])
    if kind == "box":
        return lambda x: r_fun.cuboid(g["r"] * 2, True)(x - g["o"])
    if kind == "scaled":
        return lambda x: g["w"] * r_fun.sphere(g["r"][0])(x - g["o"])
    return lambda x: (1 - jnp.sum(((x - g["o"]) / g["r"]) ** 2)) * (1.5 + jnp.sin(x[0] * g["w"]))


def boundary_point(kind, g, r):
    """(point, outward unit normal) in numpy."""
    o, rad = g["o"], g["r"]
    z = r.normal(size=3)
    z /= np.linalg.norm(z)
    if kind in ("sphere", "scaled"):
        return o + rad[0] * z, z
    if kind == "halfspace":
        t = r.normal(size=3)
        return o + t - g["n"] * (t @ g["n"]), g["n"]
    if kind == "cylinder":
        z[2] = 0
        z /= np.linalg.norm(z)
        return o + rad[0] * z + np.array([0, 0, r.uniform(-1, 1)]), z
    if kind == "box":
        p = r.uniform(-0.8, 0.8, 3) * rad
        i, s = int(r.integers(3)), r.choice([-1.0, 1.0])
        p[i] = s * rad[i]
        n = np.zeros(3)
        n[i] = s
        return o + p, n
    p = z * rad
    n = p / rad**2
    return o + p, n / np.linalg.norm(n)


def mag_fn(x, M, m0):
    return m0 + M @ x + x * jnp.sum(m0 * x)


def phi_fn(x, C, s=1.0):
    return s * (C[0] + C[1:4] @ x + C[4] * x[0] * x[1] + C[5] * jnp.sin(x[2] + x[0]))


def A_fn(x, C, s=1.0):
    return jnp.stack([phi_fn(x, C[0], s), phi_fn(x, C[1], s), phi_fn(x, C[2], s)])


def np_mag(x, M, m0):
    return m0 + M @ x + x * (m0 @ x)


def np_phi(x, C, s):
    v = s * (C[0] + C[1:4] @ x + C[4] * x[0] * x[1] + C[5] * np.sin(x[2] + x[0]))
    c = np.cos(x[2] + x[0]) * C[5]
    return v, s * (C[1:4] + np.array([C[4] * x[1] + c, C[4] * x[0], c]))


@lru_cache(None)
def runner(kind, vec, normalized, params, explicit):
    def run(g, x, M, m0, C, s):
        adf = adf_of(kind, g)
        p = A_fn if vec else phi_fn
        make = vector_potential_charge if vec else scalar_potential_charge
        kw = dict(normalized=normalized) if explicit or normalized else {}
        if params == "closure":
            ch = make(adf, lambda y: mag_fn(y, M, m0), lambda y: p(y, C, s), **kw)
            return ch(x)
        if params == "mag":
            return make(adf, mag_fn, lambda y, k=1.0: p(y, C, s * k), **kw)(x, (M, m0))
        if params == "mag-kw":
            return make(adf, mag_fn, lambda y, *k: p(y, C, s + len(k)), **kw)(x, params_mag=(M, m0))
        if params == "pot":
            f = lambda y, k=None: mag_fn(y, M, m0) if k is None else 7 * y
            ch = make(adf, f, p, **kw)
            return ch(x, (), (C, s))
        if params == "pot-kw":
            return make(adf, lambda y, *k: mag_fn(y, M, m0) + len(k), p, **kw)(x, **{"params_A1" if vec else "params_phi1": (C, s)})
        if params == "one":   # the scale keeps its default
            return make(adf, lambda y, B: mag_fn(y, *B), lambda y, c, k=1.0: p(y, c, s * k), **kw)(x, ((M, m0),), (C,))
        return make(adf, mag_fn, p, **kw)(x, (M, m0), (C, s))
    return run, jax.jit(run)


@lru_cache(None)
def product_runner(kind, vec):
    """unnormalized charge of ADF * phi"""
    def run(g, x, M, m0, C, s):
        adf = adf_of(kind, g)
        p = A_fn if vec else phi_fn
        make = vector_potential_charge if vec else scalar_potential_charge
        return make(adf, mag_fn, lambda y, C, s: adf(y) * p(y, C, s), normalized=False)(x, (M, m0), (C, s))
    return jax.jit(run)


def geometry(c):
    r = gen.rng(c["seed"], 1)
    n = np.array(c["n"]) / np.linalg.norm(c["n"])
    g = dict(o=np.array(c["o"]), n=n, r=np.array(c["r"]), w=c["w"] * (c.get("mag", 1.0) if c["kind"] in ("scaled", "ellipsoid") else 1.0))
    return g, {k: A(v) for k, v in g.items()}, r


base = dict(kind=gen.pick(*KINDS), vec=st.booleans(), params=gen.pick("closure", "both", "both", "mag", "mag-kw", "pot", "pot-kw", "one"), o=gen.vec(3, -1, 1, 1), n=gen.vec_nz(3), r=st.lists(gen.num(0.4, 2, 2), min_size=3, max_size=3),
            w=gen.num(0.2, 3, 1), mag=gen.pick(1.0, 1.0, 1e-5, 1e4), seed=gen.seeds, s=gen.num(-2, 2, 2), eager=gen.pick(*[False] * 9, True))


def setup(c):
    g, gj, r = geometry(c)
    M, m0 = r.integers(-4, 5, (3, 3)) / 4, r.integers(-4, 5, 3) / 2
    C = r.integers(-4, 5, (3, 6) if c["vec"] else 6) / 4
    return g, gj, r, M, m0, C


def chk_charge(c, ctx):
    g, gj, r, M, m0, C = setup(c)
    x, n = boundary_point(c["kind"], g, r)
    run, jrun = runner(c["kind"], c["vec"], False, c["params"], c["seed"] % 2 == 0)
    got = (run if c["eager"] else jrun)(gj, A(x), A(M), A(m0), A(C), A(c["s"]))
    m = np_mag(x, M, m0)
    if c["vec"]:
        J = np.stack([np_phi(x, C[i], c["s"])[1] for i in range(3)])
        e = np.cross(m, n) - J @ n
    else:
        e = m @ n - np_phi(x, C, c["s"])[1] @ n
    ctx.close(got, e, TOL, "vector charge" if c["vec"] else "scalar charge", scale=1 + np.abs(m).sum() + np.abs(C).sum() * (2 + np.abs(x).max()) * 3, kind=c["kind"])
    ctx.label(c["kind"], "vector" if c["vec"] else "scalar", "params-" + c["params"])
    ctx.trivial(not C.any() and not M.any() and not m0.any())
    ctx.count(1)


def chk_norm(c, ctx):
    g, gj, r, M, m0, C = setup(c)
    x, n = boundary_point(c["kind"], g, r)
    run, jrun = runner(c["kind"], c["vec"], True, c["params"], True)
    a = (gj, A(x), A(M), A(m0), A(C), A(c["s"]))
    got = (run if c["eager"] else jrun)(*a)
    other = np.asarray(product_runner(c["kind"], c["vec"])(*a))
    m = np_mag(x, M, m0)
    if c["vec"]:
        e = np.cross(m, n) + np.array([np_phi(x, C[i], c["s"])[0] for i in range(3)])
    else:
        e = m @ n + np_phi(x, C, c["s"])[0]
    sc = 1 + np.abs(m).sum() + np.abs(C).sum() * (2 + np.abs(x).max()) * 3
    ctx.close(got, e, TOL, "normalized charge", scale=sc, kind=c["kind"])
    ctx.close(got, other, TOL * 10, "normalized charge of phi differs from the charge of ADF*phi", scale=sc * (1 + 1 / g["r"].min() ** 2), kind=c["kind"])
    ctx.label(c["kind"], "vector" if c["vec"] else "scalar", "params-" + c["params"])
    ctx.count(1)


def chk_near(c, ctx):
    """Off the surface, where the Taylor expansion of the charge needs it: n is the normalized negative gradient of the ADF."""
    g, gj, r, M, m0, C = setup(c)
    x, n = boundary_point(c["kind"], g, r)
    if c["normalized"] and c["kind"] not in NORMALIZED:
        c["normalized"] = False
    x = x + r.uniform(-0.4, 0.6) * n * g["r"].min()
    if c["kind"] == "ellipsoid":
        n = (x - g["o"]) / g["r"] ** 2
        n = n / np.linalg.norm(n)
    run, jrun = runner(c["kind"], c["vec"], c["normalized"], c["params"], True)
    got = (run if c["eager"] else jrun)(gj, A(x), A(M), A(m0), A(C), A(c["s"]))
    m = np_mag(x, M, m0)
    if c["normalized"]:
        p = np.array([np_phi(x, C[i], c["s"])[0] for i in range(3)]) if c["vec"] else np_phi(x, C, c["s"])[0]
    else:
        p = -(np.stack([np_phi(x, C[i], c["s"])[1] for i in range(3)]) @ n if c["vec"] else np_phi(x, C, c["s"])[1] @ n)
    e = (np.cross(m, n) if c["vec"] else m @ n) + p
    ctx.close(got, e, TOL, "charge off the surface", scale=1 + np.abs(m).sum() + np.abs(C).sum() * (2 + np.abs(x).max()) * 3, kind=c["kind"])
    ctx.label(c["kind"], "vector" if c["vec"] else "scalar", "params-" + c["params"], "normalized" if c["normalized"] else "plain")
    ctx.trivial(not C.any() and not M.any() and not m0.any())
    ctx.count(1)


GROUPS = [
    Group("near", st.fixed_dictionaries(dict(base, kind=gen.pick("sphere", "halfspace", "cylinder", "scaled", "ellipsoid"), normalized=st.booleans())), chk_near, 240, 6000),
    Group("charge", st.fixed_dictionaries(base), chk_charge, 800, 20000),
    Group("normalized", st.fixed_dictionaries(dict(base, kind=gen.pick(*NORMALIZED))), chk_norm, 480, 12000),
]
