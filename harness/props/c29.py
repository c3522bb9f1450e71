"""C29: solids, maps, rotations and quaternion functions are differentiable in points and parameters."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st
from jax.flatten_util import ravel_pytree

import gen
from core import Group, X64
from ev import A
from magpi import domain as D
from magpi import quaternions as Q
from magpi import r_fun
from props import rsys

H = 1e-5


_COMPILED = {}


class Compiled:
    """f: R^n -> R^m with its derivatives, vectorised over points."""

    def __init__(self, f):
        self.jacf = jax.jit(jax.vmap(jax.jacfwd(f)))
        self.jacr = jax.jit(jax.vmap(jax.jacrev(f)))
        self.value = jax.jit(jax.vmap(f))
        df = lambda z, d: jax.jvp(f, (z,), (d,))[1]
        self.slope = jax.jit(jax.vmap(df, (0, None)))
        self.second = jax.jit(jax.vmap(lambda z, d: jax.jvp(lambda y: df(y, d), (z,), (d,))[1], (0, None)))


def agree(ctx, f, Z, what, v2=True, seed=0, kinks=False, key=None, **info):
    """f: R^n -> R^m at the rows of Z. Forward and reverse derivatives agree and (float64) are those of the values: central differences,
    where they show the function to be smooth (two step sizes agree). Second directional derivatives likewise, against the gradients.
    key: f is always the same function for this key."""
    Z = np.asarray(Z)
    N, n = Z.shape
    c = _COMPILED.get(key) or Compiled(f)
    if key is not None:
        _COMPILED[key] = c
    Jf, Jr = np.asarray(c.jacf(A(Z))).astype(float), np.asarray(c.jacr(A(Z))).astype(float)
    Jf, Jr = Jf.reshape(N, -1, n), Jr.reshape(N, -1, n)
    g = c.value
    v0 = np.asarray(g(A(Z))).reshape(N, -1).astype(float)
    sc = 1 + np.abs(v0).max(1)
    ctx.count(N)
    if not X64:
        size = sc + np.where(np.isfinite(Jr), np.abs(Jr), 0).max((1, 2))
        ok = (size < 1e3)
        known = (not kinks) | (np.isfinite(Jf) & np.isfinite(Jr))
        bad = known & ok[:, None, None] & ~(np.abs(Jf - Jr) <= 2e-3 * size[:, None, None])
        if bad.any():
            i = np.argwhere(bad)[0]
            ctx.fail(f"{what}: forward and reverse derivatives differ", at=Z[i[0]], got=Jf[tuple(i)], other=Jr[tuple(i)], **info)
        return int(ok.sum())

    def cd(h):
        E = np.concatenate([np.eye(n) * h, -np.eye(n) * h])
        P = np.asarray(g(A((Z[:, None] + E).reshape(-1, n)))).reshape(N, 2 * n, -1)
        return np.swapaxes(P[:, :n] - P[:, n:], 1, 2) / (2 * h), (P[:, :n] + P[:, n:] - 2 * v0[:, None])
    c1, s1 = cd(H)
    c2, _ = cd(H / 4)
    J = sc[:, None, None] + np.abs(c1)
    # smooth: the differences agree, and the values do not have a kink
    # (min and max have no derivative at ties, even where the value hides it)
    known = (not kinks) | (np.isfinite(Jf) & np.isfinite(Jr))
    smooth = known & (np.abs(c1 - c2) <= 1e-7 * J) & (np.abs(np.swapaxes(s1, 1, 2)) <= 1e-8 * J)
    for name, Jx in (("forward", Jf), ("reverse", Jr)):
        bad = smooth & ~(np.abs(Jx - c1) <= 3e-6 * J)
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            ctx.fail(f"{what}: {name} derivative is not that of the values", at=Z[i[0]], variable=i[2], component=i[1], got=Jx[i], difference=c1[i], **info)
    if v2 and smooth.all(axis=(1, 2)).any():
        d = gen.rng(seed, 77).normal(size=n)
        d /= np.linalg.norm(d)
        S = smooth.all(axis=(1, 2))
        H2 = np.asarray(c.second(A(Z), A(d))).reshape(N, -1)
        q = [(np.asarray(c.slope(A(Z + h * d), A(d))) - np.asarray(c.slope(A(Z - h * d), A(d)))).reshape(N, -1) / (2 * h) for h in (H, H / 4)]
        K = 1 + np.abs(q[0]) + np.abs(c1).sum(2)
        sm = S[:, None] & ((not kinks) | np.isfinite(H2)) & (np.abs(q[0] - q[1]) <= 1e-6 * K)
        bad = sm & ~(np.abs(H2 - q[0]) <= 1e-5 * K)
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            ctx.fail(f"{what}: second derivative is not that of the values", at=Z[i[0]], got=H2[i], difference=q[0][i], **info)
        ctx.label("second" if sm.any() else "second-none")
    return int(smooth.sum())


# --- solids: every shape and placement parameter is a variable
PRIM = {2: ["sphere", "cuboid", "cuboid0", "cube", "ellipsoid", "free"], 3: ["sphere", "cuboid", "cuboid0", "cube", "ellipsoid", "cylinder", "revolution", "free"],
        1: ["sphere", "cuboid", "cuboid0"]}
MOVES = {1: ["translate", "scale", "reflect"], 2: ["translate", "scale", "scale_free", "reflect", "rotate2d", "project"],
         3: ["translate", "scale", "scale_free", "reflect", "rotate3d", "euler", "project"]}


def prim_params(k, d, r):
    u = lambda *s: r.uniform(0.6, 2, s)
    return {"sphere": lambda: u(), "cuboid": lambda: u(d), "cuboid0": lambda: u(d), "cube": lambda: u(), "ellipsoid": lambda: u(d), "cylinder": lambda: u(),
            "revolution": lambda: u(2), "free": lambda: u(d + 1)}[k]()


def prim(k, p, d, rs):
    if k == "sphere":
        return r_fun.sphere(p)
    if k == "cuboid":
        return r_fun.cuboid(p, True, rs)
    if k == "cuboid0":
        return r_fun.cuboid(p, r_system=rs)
    if k == "cube":
        c = r_fun.cuboid(p * jnp.ones(d), True, rs) if d != 3 else r_fun.cube(p, True, rs)
        return c
    if k == "ellipsoid":
        return r_fun.ellipsoid(p)
    if k == "cylinder":
        return r_fun.cylinder(p)
    if k == "revolution":
        return r_fun.revolution(r_fun.cuboid(p, True, rs), 0)
    return r_fun.normalize_1st_order(lambda x: p[0] ** 2 - jnp.sum((x * p[1:]) ** 2))


def move_params(k, d, r):
    n = lambda m: r.normal(size=m)
    return {"translate": lambda: n(d) * 0.5, "scale": lambda: r.uniform(0.5, 2), "scale_free": lambda: r.uniform(0.5, 2, d), "reflect": lambda: (n(d) + 0.3, n(d)),
            "project": lambda: (n(d) + 0.3, n(d)), "rotate2d": lambda: (r.uniform(-3, 3), n(2)), "rotate3d": lambda: (r.uniform(-3, 3), n(3) + 0.3, n(3)),
            "euler": lambda: (r.uniform(-3, 3, 3), n(3))}[k]()


def move(adf, k, p, origin):
    kw = lambda o: dict(o=o) if origin else {}
    if k == "translate":
        return r_fun.translate(adf, p)
    if k == "scale":
        return r_fun.scale(adf, p)
    if k == "scale_free":
        return r_fun.scale_without_normalization(adf, p)
    if k == "rotate3d":
        return r_fun.rotate3d(adf, p[0], p[1], **kw(p[2]))
    return dict(reflect=r_fun.reflect, project=r_fun.project, rotate2d=r_fun.rotate2d, euler=r_fun.rotate3d)[k](adf, p[0], **kw(p[1]))


def piece(d):
    return st.tuples(gen.pick(*PRIM[d]), st.lists(st.tuples(gen.pick(*MOVES[d]), st.booleans()).map(list), min_size=0, max_size=2)).map(list)


solid_cases = st.integers(1, 3).flatmap(lambda d: st.fixed_dictionaries(dict(
    d=st.just(d), pieces=st.lists(piece(d), min_size=1, max_size=2), op=gen.pick(*rsys.OPS2), sys=st.one_of(rsys.sys_normalized(), gen.pick(["rho", 0.5])), neg=st.booleans(), seed=gen.seeds,
    zero=gen.pick(False, False, True))))


def chk_solid(c, ctx):
    d = c["d"]
    r = gen.rng(c["seed"])
    rs = rsys.build(c["sys"])
    P = [[np.asarray(prim_params(k, d, r)), [jax.tree_util.tree_map(np.asarray, move_params(m, d, r)) for m, _ in mv]] for k, mv in c["pieces"]]
    if c["zero"]:  # rotations by zero and right angles are ordinary parameter values
        for p, (_, mv) in zip(P, c["pieces"]):
            for i, (m, _) in enumerate(mv):
                if m in ("rotate2d", "rotate3d", "euler"):
                    p[1][i] = (p[1][i][0] * 0 + r.choice([0, 0.5, 1, 2]) * np.pi,) + tuple(p[1][i][1:])
    flat, un = ravel_pytree(jax.tree_util.tree_map(A, (P, np.zeros(d))))

    def f(z):
        P, x = un(z)
        parts = []
        for (k, mv), (p, q) in zip(c["pieces"], P):
            a = prim(k, p, d, rs)
            for (m, o), t in zip(mv, q):
                a = move(a, m, t, o)
            parts.append(a)
        if c["neg"]:
            parts[0] = rs.negate(parts[0])
        if len(parts) == 2:
            t = [c["op"], ["leaf", 0], ["leaf", 1]]
            return rsys.adf_of(t, parts, rs)(x)
        return parts[0](x)

    Z = np.tile(np.asarray(flat).astype(float), (8, 1))
    Z[:, -d:] = r.uniform(-1.5, 1.5, (8, d))
    k = agree(ctx, f, Z, "solid", seed=c["seed"], kinks=c["sys"] == ["named", "r1"] or c["sys"][0] == "alpha" and c["sys"][1] > 0.99, pieces=str(c["pieces"]), op=c["op"], sys=str(c["sys"]))
    ctx.trivial(k == 0)
    for pk, mv in c["pieces"]:
        ctx.label("prim-" + pk, *["move-" + m for m, _ in mv])
    ctx.label(f"dim{d}", c["op"] if len(c["pieces"]) == 2 else "single")


# --- points on the axis of a body of revolution whose section is symmetric about the axis
axis_cases = st.fixed_dictionaries(dict(
    sections=st.lists(gen.pick("sphere", "cuboid", "ellipsoid", "free"), min_size=1, max_size=2), op=gen.pick(*rsys.OPS2), sys=gen.pick(["named", "r0"], ["named", "rp4"], ["alpha", 0.3]),
    axis=gen.pick(0, 1), norm=st.booleans(), along=st.booleans(), moves=st.lists(gen.pick("translate", "scale", "rotate3d", "reflect"), max_size=1), pole=st.booleans(), seed=gen.seeds))


def chk_axis(c, ctx):
    r = gen.rng(c["seed"])
    rs = rsys.build(c["sys"])
    ax = c["axis"]
    # cuboids are not exactly even (R-conjunctions are not associative), which rounding shows next to the axis
    c = dict(c, sections=["ellipsoid" if k == "cuboid" and c["moves"] else k for k in c["sections"]])
    pole = c["pole"] and c["sections"] == ["sphere"] and not c["moves"]
    P = [np.asarray(prim_params(k, 2, r)) for k in c["sections"]]
    T = [r.normal() * 0.3 if c["along"] else 0.0 for _ in P]
    M = [jax.tree_util.tree_map(np.asarray, move_params(m, 3, r)) for m in c["moves"]]
    flat, un = ravel_pytree(jax.tree_util.tree_map(A, (P, T, np.zeros(3))))

    def f(z):
        P, T, x = un(z)
        parts = [r_fun.translate(prim(k, p, 2, rs), jnp.stack([t, 0.0 * t][:: 1 - 2 * ax])) for k, p, t in zip(c["sections"], P, T)]
        sec = parts[0] if len(parts) == 1 else lambda y: rsys.adf_of([c["op"], ["leaf", 0], ["leaf", 1]], parts, rs)(y)
        s = r_fun.revolution(sec, ax)
        if c["norm"]:
            s = r_fun.normalize_1st_order(s)
        for m, t in zip(c["moves"], M):
            s = move(s, m, jax.tree_util.tree_map(A, t), False)
            if m == "translate":
                x = x + A(t)
            elif m == "scale":
                x = x * A(t)
            elif m == "reflect":
                n = A(t[0])
                x = x - 2 * (x @ n) / (n @ n) * n
            else:
                q = Q.from_axis_angle(-t[0], A(t[1]))
                x = Q.quaternion_rotation(x, q)
        return s(x)

    Z = np.tile(np.asarray(flat).astype(float), (8, 1))
    Z[:, -3:] = 0
    Z[:, -3 + ax] = np.round(r.uniform(-1.5, 1.5, 8), 2)
    if pole:
        Z[:, -3 + ax] = Z[:, 0] * r.choice([-1, 1], 8) + T[0]
    if not c["moves"]:
        v = np.asarray(jax.vmap(f)(A(Z)))
        if not np.isfinite(v).all():
            ctx.fail("solid of revolution is not finite on its axis", points=Z[:, -3:], got=v)
    k = agree(ctx, f, Z, "solid of revolution on its axis", v2=False, seed=c["seed"], case=str({k: c[k] for k in ("sections", "op", "axis", "norm", "moves")}))
    ctx.trivial(k == 0)
    ctx.label(*c["sections"], f"axis{ax}", "pole" if pole else "inner", "normalized" if c["norm"] else "plain")


# --- connectives in their operands and parameters
BF = {
    "rho": lambda z: (r_fun.RhoBlending(z[2]), z[:2]),
    "m": lambda z: (r_fun.RAlphaM(z[2], 0.3), z[:2]),
    "alpha": lambda z: (r_fun.RAlpha(0.4), z[:2]),
    "rp": lambda z: (r_fun.RP(4), z[:2]),
}
conn_cases = st.fixed_dictionaries(dict(f=gen.pick(*BF), op=gen.pick(*rsys.OPS2), seed=gen.seeds))


def chk_conn(c, ctx):
    r = gen.rng(c["seed"])
    Z = np.concatenate([r.normal(size=(8, 2)), r.uniform(0.3, 2, (8, 1))], 1)
    Z[:, :2] += 0.1 * np.sign(Z[:, :2])

    def f(z):
        rs, (a, b) = BF[c["f"]](z)
        return rsys.adf_of([c["op"], ["leaf", 0], ["leaf", 1]], [lambda x: a * x[0], lambda x: b * x[0]], rs)(jnp.ones(1))
    j = agree(ctx, f, Z, f"connective {c['f']} {c['op']}", seed=c["seed"], key=("conn", c["f"], c["op"]))
    ctx.trivial(j == 0)
    ctx.label(c["f"], c["op"])


# --- quaternions
def qv(q):
    return jnp.concatenate([jnp.reshape(q.real, (1,)), q.imag])


def q_(z):
    return Q.Quaternion(z[0], z[1:4])


QF = {  # name: (number of variables, function)
    "exp": (4, lambda z: qv(Q.quanternion_exp(q_(z)))),
    "log": (4, lambda z: qv(Q.quanternion_log(q_(z)))),
    "pow": (5, lambda z: qv(q_(z) ** z[4])),
    "rpow": (5, lambda z: qv((1.0 + z[4] ** 2) ** q_(z))),
    "mul": (8, lambda z: qv(q_(z) * q_(z[4:]))),
    "div": (8, lambda z: qv(q_(z) / q_(z[4:]))),
    "left": (8, lambda z: qv(Q.quaternion_left_div(q_(z), q_(z[4:])))),
    "scalar": (5, lambda z: qv((z[4] * q_(z) - q_(z) / 3.0) + (1.0 - q_(z)) * z[4])),
    "norm": (4, lambda z: jnp.stack([abs(q_(z)), q_(z).reciprocal().real])),
    "axis": (7, lambda z: Q.quaternion_rotation(z[4:], Q.from_axis_angle(z[0], z[1:4]))),
    "euler": (6, lambda z: Q.quaternion_rotation(z[3:], Q.from_euler_angles(z[:3]))),
    "act": (7, lambda z: Q.quaternion_rotation(z[4:], q_(z))),
    "reflect": (6, lambda z: Q.quaternion_reflection(z[3:], z[:3])),
    "explog": (4, lambda z: qv(Q.quanternion_exp(Q.quanternion_log(q_(z)) * 0.5))),
}
quat_cases = st.fixed_dictionaries(dict(f=gen.pick(*QF), seed=gen.seeds, kind=gen.pick("generic", "generic", "real", "tiny", "imag")))


def chk_quat(c, ctx):
    n, f = QF[c["f"]]
    r = gen.rng(c["seed"])
    Z = r.normal(size=(8, n))
    Z[:, 0] += np.sign(Z[:, 0]) * 0.3
    kind = c["kind"] if c["f"] in ("exp", "log", "pow", "rpow", "mul", "div", "left", "scalar", "norm", "act", "explog") else "generic"
    if kind != "generic":
        positive = c["f"] in ("log", "pow", "explog")  # the negative real axis is the branch cut
        if kind == "imag":
            Z[:, 0] = 0.0
        else:
            Z[:, 1:4] *= 0.0 if kind == "real" else 10.0 ** r.integers(-30, -12, (8, 1))
        if positive and kind != "imag":
            Z[:, 0] = np.abs(Z[:, 0])
    Z = np.round(Z, 3) if kind not in ("tiny",) else Z
    if c["f"] in ("euler", "axis") and c["kind"] != "generic":  # right angles and full turns
        k = 3 if c["f"] == "euler" else 1
        Z[:, :k] = np.where(r.random((8, k)) < 0.6, r.integers(-4, 5, (8, k)) * np.pi / 2, Z[:, :k])
    if n > 4:
        Z[:, 4:] += 0.05 * (np.abs(Z[:, 4:]) < 0.01)
    k = agree(ctx, f, Z, f"quaternion {c['f']} ({kind})", seed=c["seed"], key=("quat", c["f"]))
    ctx.trivial(k == 0)
    ctx.label(c["f"], kind)


# --- domain maps in their parameters and coordinates
MF = {
    "hypercube": (2, 4, lambda x, p: D.transform_hypercube(x, p[:2], p[:2] + p[2:])),
    "hypercube_bnd": (2, 6, lambda x, p: D.transform_hypercube_bnd(x, p[:3], p[:3] + p[3:])),
    "edge": (1, 4, lambda x, p: D.transform_hypercube_bnd(x, p[:2], p[:2] + p[2:])),
    "circle": (2, 3, lambda x, p: D.transform_circle(x, p[2], p[:2])),
    "circle_bnd": (1, 3, lambda x, p: D.transform_circle_bnd(x, p[2], p[:2])),
    "annulus": (2, 4, lambda x, p: D.transform_annulus(x, p[2], p[2] + p[3], p[:2])),
    "sphere": (3, 4, lambda x, p: D.transform_sphere(x, p[3], p[:3])),
    "sphere_bnd": (2, 4, lambda x, p: D.transform_sphere_bnd(x, p[3], p[:3])),
    "triangle": (2, 6, lambda x, p: D.transform_triangle(x, p[:2], p[2:4] + 2.0, p[4:])),
    "polyline": (0, 8, lambda x, p: D.transform_polyline(x, tuple(p.reshape(4, 2)[i] + 2.0 * i for i in range(4)))),
}
_t = tuple
MF |= {  # the domain classes, their measures
    "Hypercube": (2, 4, lambda x, p: D.Hypercube(_t(p[:2]), _t(p[:2] + p[2:])).transform(x)),
    "Hypercube.bnd": (1, 4, lambda x, p: D.Hypercube(_t(p[:2]), _t(p[:2] + p[2:])).transform_bnd(x)),
    "Hypercube.support": (0, 6, lambda x, p: D.Hypercube(_t(p[:3]), _t(p[:3] + p[3:])).support()),
    "Parallelogram": (2, 6, lambda x, p: D.Parallelogram(*_pts(p)).transform(x)),
    "Parallelogram.bnd": (0, 6, lambda x, p: D.Parallelogram(*_pts(p)).transform_bnd(x)),
    "Parallelogram.support": (0, 6, lambda x, p: D.Parallelogram(*_pts(p)).support()),
    "Sphere": (3, 4, lambda x, p: D.Sphere(p[3], _t(p[:3])).transform(x)),
    "Sphere.bnd": (2, 4, lambda x, p: D.Sphere(p[3], _t(p[:3])).transform_bnd(x)),
    "Sphere.support": (0, 4, lambda x, p: D.Sphere(p[3], _t(p[:3])).support()),
    "Disk": (2, 3, lambda x, p: D.Disk(p[2], _t(p[:2])).transform(x)),
    "Disk.bnd": (0, 3, lambda x, p: D.Disk(p[2], _t(p[:2])).transform_bnd(x)),
    "Disk.support": (0, 3, lambda x, p: D.Disk(p[2], _t(p[:2])).support()),
    "Annulus": (2, 4, lambda x, p: D.Annulus(p[2], p[2] + p[3], _t(p[:2])).transform(x)),
    "Annulus.support": (0, 4, lambda x, p: D.Annulus(p[2], p[2] + p[3], _t(p[:2])).support()),
    "linear_map": (0, 8, lambda x, p: D.linear_map(p[:4].reshape(2, 2) + 3 * jnp.eye(2), p[4:].reshape(2, 2))),
    "affine_plane": (2, 6, lambda x, p: (lambda B, o: B @ x + o)(*D.affine_plane(*[jnp.stack(q) for q in _pts(p)]))),
}


def _pts(p):
    return (p[0], p[1]), (p[2] + 2.0, p[3]), (p[4], p[5] + 2.0)


map_cases = st.fixed_dictionaries(dict(f=gen.pick(*MF), seed=gen.seeds))


def chk_map(c, ctx):
    k, m, f = MF[c["f"]]
    r = gen.rng(c["seed"])
    kk = max(k, 1)
    Z = np.concatenate([r.uniform(0.05, 0.95, (8, kk)), r.uniform(0.4, 2, (8, m))], 1)

    def g(z):
        x = z[0] if k == 0 else z[:k]
        if c["f"] in ("edge", "circle_bnd"):
            x = z[0]
        return f(x, z[kk:])
    j = agree(ctx, g, Z, f"map {c['f']}", seed=c["seed"], key=("map", c["f"]))
    ctx.trivial(j == 0)
    ctx.label(c["f"])


GROUPS = [
    Group("solid", solid_cases, chk_solid, 160, 4000),
    Group("axis", axis_cases, chk_axis, 48, 1500),
    Group("connective", conn_cases, chk_conn, 48, 1200),
    Group("quaternion", quat_cases, chk_quat, 160, 4000),
    Group("map", map_cases, chk_map, 128, 2600),
]
