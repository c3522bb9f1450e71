"""C12: disk and ball integrals agree with the geometric integral."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import gen
from core import Group, X64
from ev import A
from magpi.integrate import gauss, integrate_disk, integrate_sphere, simpson

TOL = 1e-9 if X64 else 1e-3
G6, G8 = gauss(6), gauss(8)
LX, LW = np.polynomial.legendre.leggauss(40)
DEG = 3


def oracle(d, kind_pts, w, o, C):
    """Sum w * P(o + p): p, w an independent (numpy) product rule in polar coordinates, C coefficient tensor."""
    X = kind_pts + o
    M = [X[:, i][:, None] ** np.arange(DEG + 1) for i in range(d)]
    T = np.einsum("n,ni,nj->ij", w, *M) if d == 2 else np.einsum("n,ni,nj,nk->ijk", w, *M)
    return np.tensordot(C, T, d), np.tensordot(np.abs(C), np.abs(T) + (np.einsum("n,ni,nj->ij", np.abs(w), *map(np.abs, M)) if d == 2
                                                                         else np.einsum("n,ni,nj,nk->ijk", np.abs(w), *map(np.abs, M))), d)


def seg(a, b):
    return (a + b) / 2 + (b - a) / 2 * LX, (b - a) / 2 * LW


def polar(r0, r1, p0, p1):
    r, wr = seg(r0, r1)
    p, wp = seg(p0, p1)
    R, P = np.meshgrid(r, p, indexing="ij")
    return np.stack([R * np.cos(P), R * np.sin(P)], -1).reshape(-1, 2), (wr[:, None] * wp * R).ravel()


def spherical(r0, r1, p0, p1, t0, t1):
    r, wr = np.polynomial.legendre.leggauss(6)
    r, wr = (r0 + r1) / 2 + (r1 - r0) / 2 * r, (r1 - r0) / 2 * wr
    p, wp = seg(p0, p1)
    t, wt = seg(t0, t1)
    R, P, T = np.meshgrid(r, p, t, indexing="ij")
    X = np.stack([R * np.sin(P) * np.cos(T), R * np.sin(P) * np.sin(T), R * np.cos(P)], -1).reshape(-1, 3)
    return X, (wr[:, None, None] * wp[:, None] * wt * R**2 * np.sin(P)).ravel()


coord = gen.num(-2, 2, 2)
common = dict(r=gen.num(0.2, 2, 2), rin=gen.pick(None, 0.0, 0.25, 0.5, 0.9), out=gen.pick("scalar", "vec", "tree", "const"),
              args=gen.pick("closure", "pos", "kw"), n=gen.pick("int", "tuple", "tuple2"), seed=gen.seeds,
              how=gen.pick("gauss6", "gauss8", "simpson", "default"), jit=gen.pick(True, False, False), limits=gen.pick("default", "partial", "full"),
              mag=gen.pick(1.0, 1.0, 1.0, 0.02, 30.0, "int"), a=gen.num(-3, 3, 2), da=gen.num(0.1, 6.28, 2))
cases = st.integers(2, 3).flatmap(lambda d: st.fixed_dictionaries(dict(
    d=st.just(d), o=st.lists(coord, min_size=d, max_size=d), b=gen.num(0, 3, 2), db=gen.num(0.05, 1, 2), **common)))


def sized(c):
    m = c.get("mag", 1.0)
    if m == "int":
        return dict(c, r=max(1, round(c["r"])), o=[round(v) for v in c["o"]])
    return dict(c, r=c["r"] * m, o=[v * m for v in c["o"]])


def limits_of(c):
    d = c["d"]
    rin = None if c["rin"] is None else c["rin"] * c["r"]
    if c["limits"] == "default":
        ang = None
    elif c["limits"] == "full":
        ang = (c["a"], c["a"] + 2 * np.pi) if d == 2 else (0.0, np.pi, c["a"], c["a"] + 2 * np.pi)
    elif d == 2:
        ang = (c["a"], c["a"] + c["da"])
    else:
        b0 = min(c["b"], 3.0)
        b1 = b0 + c["db"] * (np.pi - b0)
        ang = (b0, b1, c["a"], c["a"] + c["da"])
    return rin, ang


def chk(c, ctx):
    c = sized(c)
    d, out = c["d"], c["out"]
    o = np.array(c["o"])
    rin, ang = limits_of(c)
    r = gen.rng(c["seed"])
    k = {"scalar": (), "const": (), "vec": (2,), "tree": (3,)}[out]
    deg = DEG if c["how"].startswith("gauss") else 1
    C = r.integers(-4, 5, (*k, *([DEG + 1] * d))) / 4
    idx = np.indices([DEG + 1] * d).sum(0)
    C = np.where(idx <= deg, C, 0.0)
    s = float(r.integers(1, 9)) / 4

    def f0(x, C, s):
        M = [x[i] ** jnp.arange(DEG + 1) for i in range(d)]
        T = M[0][:, None] * M[1] if d == 2 else M[0][:, None, None] * M[1][:, None] * M[2]
        v = jnp.tensordot(C, T, d) * s
        if out == "const":
            return 1.0
        return dict(a=v[:2], b=(v[2],)) if out == "tree" else v

    nodes = dict(gauss6=(2, 8, 10), gauss8=(2, 6, 7), simpson=(5, 17, 21), default=(5, 17, 21))[c["how"]]
    if d == 2:
        nodes = (nodes[0], nodes[2])
    if c["n"] == "tuple2":
        nodes = (nodes[0] + 1, *[n + 1 for n in nodes[1:]])
    n = tuple(nodes) if c["n"] != "int" else (max(nodes) if d == 2 else max(nodes[1:]))
    kw = {}
    m = dict(gauss6=G6, gauss8=G8, simpson=simpson).get(c["how"])
    seen = []
    if m is not None:
        def method(dom):
            seen.append(np.shape(dom)[0])
            return m(dom)
        kw["method"] = method
    lim = []
    if c["args"] == "pos":  # extra positional arguments follow the limits
        lim = [0.0 if rin is None else rin, *(ang or ((0.0, 2 * np.pi) if d == 2 else (0.0, np.pi, 0.0, 2 * np.pi)))]
    else:
        if rin is not None:
            kw["r_inner"] = rin
        if ang is not None:
            kw.update(zip(("phi1", "phi2") if d == 2 else ("phi1", "phi2", "theta1", "theta2"), ang))
    F = integrate_disk if d == 2 else integrate_sphere
    Cj, sj = A(C), A(s)

    def run(rad, o, Cj, sj):
        if c["args"] == "closure":
            return F(lambda x: f0(x, Cj, sj), rad, o, n, **kw)
        if c["args"] == "pos":
            return F(f0, rad, o, n, *lim, Cj, sj, **kw)
        return F(lambda x, C, s: f0(x, C, s), rad, o, n, C=Cj, s=sj, **kw)

    B = jnp.asarray if c.get("mag") == "int" else A
    got = (jax.jit(run) if c["jit"] else run)(B(c["r"]), B(o), Cj, sj)
    rin_, ang_ = rin or 0.0, ang or ((0.0, 2 * np.pi) if d == 2 else (0.0, np.pi, 0.0, 2 * np.pi))
    X, w = polar(rin_, c["r"], *ang_) if d == 2 else spherical(rin_, c["r"], *ang_)
    if out == "const":
        C, s = np.zeros_like(C), 1.0
        C.flat[0] = 1.0
    e, bound = oracle(d, X, w, o, C)
    e, bound = e * s, bound * s + 1e-6 * np.abs(w).sum()
    exp = dict(a=e[:2], b=(e[2],)) if out == "tree" else e
    bnd = dict(a=bound[:2], b=(bound[2],)) if out == "tree" else bound
    tg, te = jax.tree_util.tree_structure(got), jax.tree_util.tree_structure(exp)
    ctx.true(tg == te, "structure of the integral differs from the integrand's", got=str(tg), expected=str(te))
    tol = TOL if c["how"].startswith("gauss") else 2e-3
    for g, ee, bb in zip(*map(jax.tree_util.tree_leaves, (got, exp, bnd))):
        ctx.close(g, np.asarray(ee), tol, f"integral over {'disk' if d == 2 else 'ball'}", scale=np.asarray(bb) + np.abs(w).sum() * 0.1)
    if m is not None:
        want = [n] * d if isinstance(n, int) else list(n)
        ctx.true(sorted(seen) == sorted(want), "partition sizes differ from the requested node counts", got=seen, want=want)
    ctx.count(np.prod(n if isinstance(n, tuple) else (n,) * d))
    ctx.label(f"dim{d}", out, c["how"], "inner" if rin_ else "solid", c["limits"], "n_" + c["n"], c["args"], f"size-{c.get('mag', 1.0)}")
    ctx.trivial(not np.any(C))


def chk_refine(c, ctx):
    """Whole = sum of its parts: splitting radius or angle."""
    c = sized(c)
    d = c["d"]
    rin, ang = limits_of(c)
    rin = rin or 0.0
    ang = list(ang or ((0.0, 2 * np.pi) if d == 2 else (0.0, np.pi, 0.0, 2 * np.pi)))
    r = gen.rng(c["seed"], 1)
    kvec = r.normal(size=d)
    o = A(c["o"])
    kvec = kvec / max(1.0, np.abs(kvec).max() * (np.abs(o).max() + c["r"]) / 6)
    F = integrate_disk if d == 2 else integrate_sphere
    nd = (3, 7) if d == 2 else (3, 6, 7)
    f = lambda x: jnp.cos(x @ A(kvec)) + x[0]

    def I(r0, r1, ang):
        return float(F(f, r1, o, nd, r0, *ang, method=G8))
    whole = I(rin, c["r"], ang)
    which = int(r.integers(0, 1 + len(ang) // 2))
    t = r.uniform(0.2, 0.8)
    if which == 0:
        mid = rin + t * (c["r"] - rin)
        parts = I(rin, mid, ang) + I(mid, c["r"], ang)
    else:
        i = 2 * (which - 1)
        mid = ang[i] + t * (ang[i + 1] - ang[i])
        parts = I(rin, c["r"], [*ang[:i + 1], mid, *ang[i + 2:]]) + I(rin, c["r"], [*ang[:i], mid, *ang[i + 1:]])
    ctx.close(parts, whole, 1e-7 if X64 else 1e-3, "parts do not add up to the whole", scale=c["r"] ** d * (10 + np.abs(o).max()), split=which)
    ctx.label(f"split{which}", f"dim{d}")
    ctx.count(3)


GROUPS = [
    Group("exact", cases, chk, 240, 8000),
    Group("split", cases, chk_refine, 160, 2500),
]
