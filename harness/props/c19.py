"""C19: imposed Dirichlet and initial conditions hold exactly for every model."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import gen
from core import Group, X64
from ev import A
from magpi import r_fun
from magpi.model import impose_dirichlet_bc, impose_ic

TOL = 1e-10 if X64 else 2e-4
SHAPES = {"scalar": (), "one": (1,), "vec": (3,), "mat": (2, 2), "tall": (3, 1), "cube": (2, 1, 2)}
MAGS = (1.0, 1.0, 1.0, 0.0, 1e-3, 1e3)


class M:
    """A smooth random function of any subset of the roles x (d,), t (), p (2,)."""

    def __init__(self, seed, salt, d, shape, roles, mag=1.0):
        r = gen.rng(seed, salt)
        n = int(np.prod(shape)) if shape else 1
        self.shape, self.roles = shape, list(roles)
        self.size = {"x": d, "t": 1, "p": 2}
        self.W = {k: np.round(r.uniform(-1, 1, (4, self.size[k])), 2) for k in "xtp"}
        self.b, self.C = np.round(r.uniform(-1, 1, 4), 2), np.round(r.uniform(-1, 1, (n, 4)), 2) * mag

    def ev(self, xp, vals, s=1.0):
        z = self.b if xp is np else A(self.b)
        for k in self.roles:
            W = self.W[k] if xp is np else A(self.W[k])
            z = z + W @ xp.reshape(vals[k], (self.size[k],))
        C = self.C if xp is np else A(self.C)
        return s * xp.reshape(C @ xp.sin(z) + 0.5 * (C @ z), self.shape)

    def fn(self, order):
        """positional function taking the roles in the given order"""
        return lambda *a: self.ev(jnp, dict(zip(order, a)))


layouts = st.permutations(["x", "t", "p"]).flatmap(lambda p: st.integers(1, 3).map(lambda n: [k for k in p if k == "x" or k in p[:n]]))
common = dict(seed=gen.seeds, d=gen.pick(1, 2, 3, 4), shape=gen.pick(*SHAPES), mag=gen.pick(*MAGS), mag_data=gen.pick(*MAGS), kw=gen.pick(None, "use", "default"), deco=st.booleans(), jit=gen.pick(False, False, True))


def values(c, r, d):
    return dict(x=np.round(r.uniform(-2, 2, d), 2), t=np.round(r.uniform(-1, 3), 2), p=np.round(r.uniform(-1, 1, 2), 2))


def model_fn(m, layout, kw, extra):
    """model(*layout, [s=])"""
    if kw is None:
        return m.fn(layout), {}, 1.0
    f = lambda *a, s=1.5: m.ev(jnp, dict(zip(layout, a)), s)
    return f, (dict(s=A(0.75)) if kw == "use" else {}), (0.75 if kw == "use" else 1.5)


def subset(r, layout):
    k = int(r.integers(1, len(layout) + 1))
    return [layout[i] for i in r.permutation(len(layout))[:k]]


def argn(layout, roles, as_int):
    a = [layout.index(k) for k in roles]
    return a[0] if as_int and len(a) == 1 else a


def tangents(ctx, r, u, ref, layout, vals, kw, shape, scale):
    """The constrained model is that function of its arguments: so are its directional derivatives (used in every residual)."""
    if r.integers(3) > 0:
        return
    tang = [A(np.round(r.uniform(-1, 1, np.shape(vals[k])), 2)) for k in layout]
    args = [A(vals[k]) for k in layout]
    got = jax.jvp(lambda *a: u(*a, **kw), args, tang)[1]
    exp = jax.jvp(lambda *a: ref(dict(zip(layout, a))) + jnp.zeros(shape), args, tang)[1]
    ctx.close(got, np.asarray(exp), TOL, "directional derivative", scale=10.0 * scale)


bc_cases = st.fixed_dictionaries(dict(common, layout=layouts, adf=gen.pick("halfspace", "sphere", "interval", "model", "timed"), g=gen.pick("none", "x", "subset", "scalar"),
                                      onb=st.booleans(), near=gen.pick(False, False, True), ints=st.booleans()))


def chk_bc(c, ctx):
    d, layout, shape = c["d"], c["layout"], SHAPES[c["shape"]]
    r = gen.rng(c["seed"], 11)
    vals = values(c, r, d)
    n = r.normal(size=d)
    n = np.round(n / np.linalg.norm(n), 3) if d > 1 else np.array([1.0])
    kind = c["adf"]
    if kind == "timed" and "t" not in layout:
        kind = "halfspace"
    aroles = ["x"]
    if kind == "halfspace":
        adf = lambda x: A(n) @ x - 0.5
        l = lambda v: n @ v["x"] - 0.5
        if c["onb"]:
            j = int(np.argmax(np.abs(n)))
            e = np.zeros(d)
            e[j] = 1.0
            n = e  # axis-aligned: the boundary point is hit exactly
            vals["x"][j] = 0.5
    elif kind == "sphere":
        adf = lambda x: r_fun.sphere(1.5)(x)
        l = lambda v: 1.5 / 2 - (v["x"] @ v["x"]) / (2 * 1.5)
        if c["onb"]:
            vals["x"] = 1.5 * vals["x"] / (np.linalg.norm(vals["x"]) or 1.0)
            if not vals["x"].any():
                vals["x"][0] = 1.5
        l = None
    elif kind == "interval":
        adf = lambda x: jnp.prod(x * (2.0 - x))
        l = lambda v: np.prod(v["x"] * (2 - v["x"]))
        if c["onb"]:
            vals["x"][0] = r.choice([0.0, 2.0])
    elif kind == "timed":  # moving boundary, arguments in another order
        aroles = ["t", "x"] if c["ints"] else ["x", "t"]
        adf = (lambda t, x: x[0] - t) if c["ints"] else (lambda x, t: x[0] - t)
        l = lambda v: v["x"][0] - v["t"]
        if c["onb"]:
            vals["x"][0] = vals["t"]
    else:
        am = M(c["seed"], 5, d, (), ["x"])
        adf = am.fn(["x"])
        l = lambda v: am.ev(np, v)
    near = c["onb"] and c["near"]  # a little beside the boundary
    if near:
        vals["x"] = vals["x"] + r.choice([-1, 1]) * 10 ** r.uniform(-7, -2) * n
    m = M(c["seed"], 1, d, shape, layout, c["mag"])
    f, kw, s = model_fn(m, layout, c["kw"], None)
    opt = {}
    gv = 0.0
    if c["g"] != "none":
        groles = ["x"] if c["g"] in ("x", "scalar") else subset(r, layout)
        gm = M(c["seed"], 2, d, () if c["g"] == "scalar" else shape, groles, c["mag_data"])
        opt["g"] = gm.fn(groles)
        gv = gm.ev(np, vals)
        if not (groles == ["x"] and layout.index("x") == 0 and c["ints"]):
            opt["argnums_g"] = argn(layout, groles, c["ints"])
    if not (aroles == ["x"] and layout.index("x") == 0 and c["ints"]):
        opt["argnums_adf"] = argn(layout, aroles, c["ints"])
    if c["g"] == "none" and layout.index("x") != 0:
        opt["argnums_g"] = layout.index("x")
    u = impose_dirichlet_bc(adf, **opt)(f) if c["deco"] else impose_dirichlet_bc(adf, f, **opt)
    args = [A(vals[k]) for k in layout]
    got = (jax.jit(u) if c["jit"] else u)(*args, **kw)
    L = float(np.asarray(adf(*[A(vals[k]) for k in aroles]))) if l is None else l(vals)
    mv = m.ev(np, vals, s)
    exp = L * mv + gv
    big = 10.0 * max(1.0, c["mag"], c["mag_data"])
    ctx.close(got, np.broadcast_to(exp, shape), TOL, "constrained model", scale=big)
    tangents(ctx, r, u, lambda a: adf(*[a[k] for k in aroles]) * m.ev(jnp, a, s) + (gm.ev(jnp, a) if c["g"] != "none" else 0.0), layout, vals, kw, shape, big)
    onb = c["onb"] and not near and kind in ("halfspace", "interval", "timed")
    if onb:
        gj = np.asarray(opt["g"](*[A(vals[k]) for k in groles])) if c["g"] != "none" else np.zeros(())
        tiny = 1e-14 if X64 else 1e-6
        ctx.close(got, np.broadcast_to(gj, shape), tiny, "boundary data", scale=big)
    ctx.label(kind, "g_" + c["g"], c["shape"], "layout_" + "".join(layout), "boundary" if c["onb"] else "anywhere", "decorator" if c["deco"] else "direct")
    ctx.count(1)


ic_cases = st.fixed_dictionaries(dict(common, layout=layouts.filter(lambda l: "t" in l), t0=gen.pick(None, 0.0, 0.5, -1.25, 40.0), rate=gen.pick(None, 1.0, 10.0, 0.25, 0.0, 60.0), at0=st.booleans(),
                                      m0=gen.pick("x", "subset", "scalar"), ints=st.booleans()))


def chk_ic(c, ctx):
    d, layout, shape = c["d"], c["layout"], SHAPES[c["shape"]]
    r = gen.rng(c["seed"], 12)
    vals = values(c, r, d)
    t0, rate = c["t0"] or 0.0, 10.0 if c["rate"] is None else c["rate"]
    later = 0.0 if c["at0"] else (r.choice([1e-6, 1e-3, 0.1, 1.0, 3.0]) if rate > 20 or r.integers(2) else np.round(r.uniform(-1, 3), 2))
    vals["t"] = np.asarray(t0 + later)
    m = M(c["seed"], 1, d, shape, layout, c["mag"])
    f, kw, s = model_fn(m, layout, c["kw"], None)
    roles = ["x"] if c["m0"] != "subset" else subset(r, layout)
    gm = M(c["seed"], 2, d, () if c["m0"] == "scalar" else shape, roles, c["mag_data"])
    opt = {}
    if c["t0"] is not None:
        opt["t0"] = t0
    if c["rate"] is not None:
        opt["decay_rate"] = rate
    it = layout.index("t")
    if not (roles == ["x"] and layout.index("x") == 0 and c["ints"]):
        opt["argnums_m0"] = argn(layout, roles, c["ints"])
    if it != 1 or not c["ints"]:
        opt["argnum_t"] = it
    m0 = gm.fn(roles)
    u = impose_ic(m0, **opt)(f) if c["deco"] else impose_ic(m0, f, **opt)
    got = (jax.jit(u) if c["jit"] else u)(*[A(vals[k]) for k in layout], **kw)
    dec = np.exp(-rate * (vals["t"] - t0))
    mv, gv = m.ev(np, vals, s), gm.ev(np, vals)
    exp = dec * gv + (1 - dec) * mv
    big = 10.0 * max(1.0, c["mag"], c["mag_data"])
    ctx.close(got, np.broadcast_to(exp, shape), TOL, "model with initial condition", scale=big * (1 + dec))

    def ref(a):
        dec = jnp.exp(-rate * (a["t"] - t0))
        return dec * gm.ev(jnp, a) + (1 - dec) * m.ev(jnp, a, s)
    tangents(ctx, r, u, ref, layout, vals, kw, shape, big * (1 + dec) * (1 + rate))
    if c["at0"]:
        gj = np.asarray(m0(*[A(vals[k]) for k in roles]))
        ctx.close(got, np.broadcast_to(gj, shape), 1e-14 if X64 else 1e-6, "initial data", scale=big)
    ctx.label("m0_" + c["m0"], c["shape"], "layout_" + "".join(layout), "initial" if c["at0"] else "later", "decorator" if c["deco"] else "direct")
    ctx.count(1)


both_cases = st.fixed_dictionaries(dict(seed=gen.seeds, order=st.booleans()))


def chk_both(c, ctx):
    """Nested: Dirichlet data on top of an initial condition and vice versa."""
    r = gen.rng(c["seed"], 13)
    m, g, m0 = (M(c["seed"], i, 2, (), ro) for i, ro in ((1, ["x", "t", "p"]), (2, ["x"]), (3, ["x"])))
    x, t, p = np.round(r.uniform(-1, 1, 2), 2), np.round(r.uniform(0, 1), 2), np.round(r.uniform(-1, 1, 2), 2)
    v = dict(x=x, t=t, p=p)
    adf = lambda x: 1 - x[0] ** 2
    l, dec = 1 - x[0] ** 2, np.exp(-3.0 * t)
    if c["order"]:
        u = impose_dirichlet_bc(adf, g=g.fn(["x"]))(impose_ic(m0.fn(["x"]), decay_rate=3.0)(m.fn(["x", "t", "p"])))
        e = l * (dec * m0.ev(np, v) + (1 - dec) * m.ev(np, v)) + g.ev(np, v)
    else:
        u = impose_ic(m0.fn(["x"]), impose_dirichlet_bc(adf, m.fn(["x", "t", "p"]), g=g.fn(["x"])), decay_rate=3.0)
        e = dec * m0.ev(np, v) + (1 - dec) * (l * m.ev(np, v) + g.ev(np, v))
    ctx.close(u(A(x), A(t), A(p)), e, TOL, "nested conditions", scale=10.0)
    ctx.label("bc(ic)" if c["order"] else "ic(bc)")
    ctx.count(1)


GROUPS = [
    Group("dirichlet", bc_cases, chk_bc, 800, 16000),
    Group("initial", ic_cases, chk_ic, 640, 12000),
    Group("nested", both_cases, chk_both, 120, 2000),
]
