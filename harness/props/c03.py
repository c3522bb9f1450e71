"""C03: approximate distance functions are normalized on the boundary."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import gen
from core import Group, X64
from ev import A, batch
from magpi import r_fun
from props import rsys, xform

norm_sys = st.one_of(
    gen.special(-0.6 if X64 else -0.3, 1.0, [0.0, 1.0, 0.5]).map(lambda a: ["alpha", a]),
    gen.pick(2, 4, 6, 8).map(lambda p: ["p", p]),
    gen.pick("r0", "r1", "rp2", "rp4").map(lambda n: ["named", n]),
    gen.num(0.01, 0.05, 2).map(lambda r: ["rho", r]))


def read_once(depth):
    """Expression trees in which every leaf occurs once (no self-touching boundaries)."""
    def number(t, c):
        if t[0] == "leaf":
            i = c[0]
            c[0] += 1
            return ["leaf", i]
        return [t[0]] + [number(s, c) for s in t[1:]]
    return rsys.trees(1, depth).map(lambda t: number(t, [0]))


def leaves_of(t):
    return 1 if t[0] == "leaf" else sum(leaves_of(s) for s in t[1:])


def boundary_operands(seed, tree, k, n, mag=1.0):
    """Points with exactly one vanishing leaf on which the Boolean value flips; (X, i, inward sign)."""
    r = gen.rng(seed)
    X = np.exp(r.uniform(np.log(0.4), np.log(3), (n, k))) * r.choice([-1.0, 1.0], (n, k))
    # distinct magnitudes: R_1 has kinks on ties
    X = X * (1 + 0.05 * np.arange(k))
    i = r.integers(0, k, n)
    X[np.arange(n), i] = 0.0
    s = np.sign(X)
    z = rsys.kleene(tree, s)
    s[np.arange(n), i] = 1.0
    up = rsys.kleene(tree, s)
    s[np.arange(n), i] = -1.0
    dn = rsys.kleene(tree, s)
    keep = (z == 0) & (up == -dn) & (up != 0)
    return X[keep] * mag, i[keep], up[keep]


tree_cases = st.fixed_dictionaries(dict(sys=norm_sys, tree=st.integers(1, 3).flatmap(read_once), seed=gen.seeds,
                                        mag=gen.pick(1.0, 1.0, 1.0, *([1e-3, 1e3] if X64 else [0.05, 30.0])), rev=st.booleans(), mode=gen.pick("jit", "jit", "jit", "loop", "jit", "jit", "eager")))


def chk_tree(c, ctx):
    rs = rsys.build(c["sys"])
    k = leaves_of(c["tree"])
    homogeneous = c["sys"][0] != "rho"
    X, i, up = boundary_operands(c["seed"], c["tree"], k, 40, c.get("mag", 1.0) if homogeneous else 1.0)
    if not len(X):
        ctx.trivial()
        ctx.label("no boundary point")
        return
    f = rsys.adf_of(c["tree"], [lambda x, j=j: x[j] for j in range(k)], rs)
    d = (jax.grad if c["rev"] else jax.jacfwd)(f)
    g, n = batch(d, X, c["mode"], 4)
    ctx.count(n)
    ctx.label("sys:" + c["sys"][0], f"leaves{k}")
    e = np.zeros((n, k))
    e[np.arange(n), i[:n]] = up[:n]
    # ties of intermediate values are kinks of min/max; skip those few points
    if c["sys"] in (["alpha", 1.0], ["named", "r1"]):
        ok = np.array([len(set(np.round(np.abs(x) / (c.get("mag", 1.0)), 3))) == k for x in X[:n]])
    else:
        ok = np.ones(n, bool)
    ctx.close(g[ok], e[ok], 1e-6 if X64 else 5e-3, "gradient on the boundary is not the inward unit normal", scale=1.0,
              sys=str(c["sys"]), tree=str(c["tree"]))


high_cases = st.fixed_dictionaries(dict(p=gen.pick(4, 4, 6) if X64 else st.just(4), tree=st.integers(1, 2).flatmap(read_once),
                                        seed=gen.seeds))


def chk_high(c, ctx):
    """R_p: normal derivatives of order 2..p-1 vanish."""
    rs = r_fun.RP(c["p"])
    k = leaves_of(c["tree"])
    X, i, up = boundary_operands(c["seed"], c["tree"], k, 24)
    if not len(X):
        ctx.trivial()
        return
    X, i, up = X[:6], i[:6], up[:6]
    f = rsys.adf_of(c["tree"], [lambda x, j=j: x[j] for j in range(k)], rs)
    E = np.eye(k)[i]

    def along(x, e):
        h = lambda s: f(x + s * e)
        out = []
        for _ in range(c["p"] - 1):
            h = jax.grad(h) if False else (lambda hh: lambda s: jax.jvp(hh, (s,), (jnp.ones_like(s),))[1])(h)
            out.append(h(jnp.zeros((), x.dtype)))
        return jnp.stack(out)

    D = np.asarray(jax.vmap(along)(A(X), A(E)))
    ctx.count(D.size)
    ctx.close(D[:, 0], up, 1e-6 if X64 else 5e-3, "first normal derivative", scale=1.0)
    fac = np.array([1.0, 2, 6, 24, 120, 720])[1:c["p"] - 1]
    ctx.close(D[:, 1:], np.zeros_like(D[:, 1:]), 1e-5 if X64 else 5e-2, "higher normal derivative does not vanish", scale=fac,
              p=c["p"], tree=str(c["tree"]))
    ctx.label(f"p{c['p']}", f"leaves{k}")


prim_cases = gen.pick(2, 3, 2, 3, 3, 1, 4).flatmap(lambda d: st.fixed_dictionaries(dict(
    dim=st.just(d), kind=gen.pick("sphere", "ellipsoid", "cuboid", "cylinder", "revolution"), size=gen.vec(d, 0.4, 3, 2),
    chain=xform.chain(d, 0, 3, rigid=True), sys=norm_sys.filter(lambda s: s[0] != "rho"), axis=gen.pick(0, 1),
    seed=gen.seeds, mode=gen.pick("jit", "jit", "jit", "loop", "jit", "jit", "eager"))))


def primitive(c):
    """(ADF, boundary points, outward normals) in the primitive's own frame"""
    d, s, r = c["dim"], np.array(c["size"]), gen.rng(c["seed"])
    n = 12
    U = r.normal(size=(n, d))
    U /= np.linalg.norm(U, axis=-1, keepdims=True)
    k = c["kind"] if d > 1 or c["kind"] != "cylinder" else "sphere"
    if k == "sphere":
        return r_fun.sphere(s[0]), U * s[0], U
    if k == "ellipsoid":
        N = U / s
        return r_fun.ellipsoid(list(s)), U * s, N / np.linalg.norm(N, axis=-1, keepdims=True)
    if k == "cylinder":
        V = r.normal(size=(n, 2))
        V /= np.linalg.norm(V, axis=-1, keepdims=True)
        Z = np.zeros((n, d - 2))
        return (r_fun.cylinder(s[0]), np.concatenate([V * s[0], r.uniform(-2, 2, Z.shape)], -1),
                np.concatenate([V, Z], -1))
    if k == "revolution" and d == 3:
        # torus: a disk of radius a whose center is at distance R > a from the axis of revolution
        a, R, h = 0.3 * s[0], s[0], s[1] - 1
        off = [h, R] if c["axis"] == 0 else [R, h]
        f = r_fun.revolution(r_fun.translate(r_fun.sphere(a), off), c["axis"])
        th, ph = r.uniform(0, 2 * np.pi, (2, n))
        n2 = np.stack([np.cos(th), np.sin(th)], -1)
        p2 = np.array(off) + a * n2
        if c["axis"] == 0:
            X = np.stack([p2[:, 0], p2[:, 1] * np.cos(ph), p2[:, 1] * np.sin(ph)], -1)
            N = np.stack([n2[:, 0], n2[:, 1] * np.cos(ph), n2[:, 1] * np.sin(ph)], -1)
        else:
            X = np.stack([p2[:, 0] * np.cos(ph), p2[:, 1], p2[:, 0] * np.sin(ph)], -1)
            N = np.stack([n2[:, 0] * np.cos(ph), n2[:, 1], n2[:, 0] * np.sin(ph)], -1)
        return f, X, N
    X = s * r.uniform(0.15, 0.85, (n, d))
    ax = r.integers(0, d, n)
    side = r.integers(0, 2, n)
    X[np.arange(n), ax] = side * s[ax]
    N = np.zeros((n, d))
    N[np.arange(n), ax] = 2 * side - 1
    # keep clear of coordinates with equal distances (kinks of min/max)
    return r_fun.cuboid(list(s), r_system=rsys.build(c["sys"])), X, N


def chk_prim(c, ctx):
    f, X, N = primitive(c)
    for t in c["chain"]:
        f = xform.apply(f, t)
        X, N = xform.forward(t, X, N)
    (v, g), n = batch(lambda x: (f(x), jax.jacfwd(f)(x)), X, c["mode"], 4)
    sc = max([1.0] + [float(t[1]) for t in c["chain"] if t[0] == "scale"])
    small = 1.0
    for t in c["chain"]:
        small *= float(t[1]) if t[0] == "scale" else 1.0
    loose = max(1.0, 1.0 / small)
    ctx.count(n)
    ctx.label(c["kind"], f"dim{c['dim']}", *[t[0] for t in c["chain"]])
    ctx.close(v, np.zeros(len(v)), (1e-9 if X64 else 1e-4) * (1 + np.abs(X).max()) * sc, "ADF on the boundary", scale=1.0)
    ctx.close(g, -N[:n], (1e-6 if X64 else 5e-3) * loose * (1 + np.abs(X).max()),
              f"gradient of {c['kind']} is not the inward unit normal", scale=1.0, chain=str(c["chain"]))


first_cases = st.fixed_dictionaries(dict(dim=st.integers(1, 3), base=gen.pick("plane", "sphere", "box", "poly"), amp=st.one_of(gen.num(0.2, 8, 1), gen.num(0.2, 8, 1), gen.pick(1e-4, 1e4)),
                                         w=gen.vec(6, -2, 2, 2), n=gen.vec_nz(3), r=gen.num(0.4, 2, 2), seed=gen.seeds,
                                         mode=gen.pick("jit", "jit", "loop", "jit", "eager")))


def chk_first(c, ctx):
    """normalize_1st_order on functions base(x) * positive(x) with a known zero set and normal."""
    d = c["dim"]
    r = gen.rng(c["seed"])
    nv = np.array(c["n"][:d])
    nv = nv if np.linalg.norm(nv) > 0.2 else nv + np.eye(d)[0]
    w = np.array(c["w"])
    pos = lambda x: c["amp"] * jnp.exp(0.3 * jnp.sum(w[:d] * jnp.sin(x + w[3:3 + d])))
    n = 16
    if c["base"] in ("plane", "poly"):
        b = 0.3 * c["r"]
        q = 0.5 if c["base"] == "poly" else 0.0
        # monotone in s = n.x - b: zero set is the plane
        base = lambda x: (lambda s: s + q * s**3)(jnp.dot(x, nv) - b)
        X0 = r.uniform(-2, 2, (n, d))
        X0 = X0 - ((X0 @ nv) - b)[:, None] * nv / (nv @ nv)
        G = np.tile(nv / np.linalg.norm(nv), (n, 1))
        inside = lambda X: X @ nv - b
    elif c["base"] == "sphere":
        base = lambda x: c["r"] ** 2 - jnp.sum(x**2)
        U = r.normal(size=(n, d))
        U /= np.linalg.norm(U, axis=-1, keepdims=True)
        X0, G = U * c["r"], -U
        inside = lambda X: c["r"] - np.linalg.norm(X, axis=-1)
    else:
        f = np.array([0.5, 2.0, 1.3])[:d] * c["r"]
        base = r_fun.scale_without_normalization(r_fun.cube(1.0, True), list(f))
        X0 = f * r.uniform(-0.35, 0.35, (n, d))
        ax, sd = r.integers(0, d, n), r.choice([-1.0, 1.0], n)
        X0[np.arange(n), ax] = sd * f[ax] / 2
        G = np.zeros((n, d))
        G[np.arange(n), ax] = -sd
        inside = lambda X: (f / 2 - np.abs(X)).min(-1)
    g = lambda x: base(x) * pos(x)
    h = r_fun.normalize_1st_order(g)
    X = r.uniform(-2.5, 2.5, (n, d))
    (v, J), m = batch(lambda x: (h(x), jax.jacfwd(h)(x)), np.concatenate([X0, X]), "jit")
    v2, v, J, m = v[n:], v[:n], J[:n], n
    if c["mode"] == "eager":
        J, m = batch(jax.jacfwd(h), X0, "eager", 1)
    ctx.label(c["base"], f"dim{d}")
    ctx.close(v, np.zeros(n), 1e-9 if X64 else 1e-4, "normalized ADF moved its zero set", scale=1.0)
    ctx.close(J, G[:m], 1e-6 if X64 else 5e-3, "normalize_1st_order: gradient is not the unit normal", scale=1.0)
    s = inside(X)
    v = v2
    keep = np.abs(s) > 1e-2
    ctx.finite(v, "normalized ADF")
    ctx.count(2 * n)
    bad = keep & (np.sign(v) != np.sign(s))
    if bad.any():
        i = int(np.argmax(bad))
        ctx.fail("normalize_1st_order changed the sign", point=X[i], signed=s[i], value=v[i])


GROUPS = [
    Group("tree", tree_cases, chk_tree, 420, 10000),
    Group("high", high_cases, chk_high, 100, 2500),
    Group("prim", prim_cases, chk_prim, 320, 6000),
    Group("first", first_cases, chk_first, 160, 3000),
]
