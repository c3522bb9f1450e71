"""C20: imposed Neumann conditions hold exactly for every model."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import gen
from core import Group, X64
from ev import A
from magpi import r_fun
from magpi.model import impose_neumann_bc
from props.c19 import M, SHAPES, argn, common, layouts, model_fn, subset, values

TOL = 1e-9 if X64 else 2e-3
KINDS = ["halfspace", "sphere", "box", "normalized", "timed", "interval"]
cases = st.fixed_dictionaries(dict(common, layout=layouts, adf=gen.pick(*KINDS), h=gen.pick("none", "x", "subset", "scalar"), ints=st.booleans()))


def boundary(kind, d, r, vals):
    """(adf, roles, boundary x, outward unit normal); vals['x'] is replaced."""
    z = r.normal(size=d)
    z /= np.linalg.norm(z)
    R = [1.5, 0.05, 0.4, 8.0, 120.0][int(r.integers(5))]
    if kind == "halfspace":
        y = r.uniform(-1, 1, d)
        vals["x"] = y - z * (y @ z - 0.5)
        return (lambda x: 0.5 - A(z) @ x), ["x"], z
    if kind == "sphere":
        vals["x"] = R * z
        return r_fun.sphere(R), ["x"], z
    if kind == "box":
        e = np.round(r.uniform(0.5, 2, d), 2)
        i, s = int(r.integers(d)), r.choice([-1.0, 1.0])
        e = e * min(R, 8.0)
        x = r.uniform(-0.45, 0.45, d) * e
        x[i] = s * e[i] / 2
        vals["x"] = x
        n = np.zeros(d)
        n[i] = s
        return r_fun.cuboid(A(e), True), ["x"], n
    if kind == "normalized":
        q = np.round(r.uniform(0.5, 2, d), 2)
        x = z * q
        vals["x"] = x
        n = x / q**2
        return r_fun.normalize_1st_order(lambda y: 1 - jnp.sum((y / A(q)) ** 2)), ["x"], n / np.linalg.norm(n)
    if kind == "timed":
        y = r.uniform(-1, 1, d)
        vals["x"] = y - z * (y @ z - 0.5 * vals["t"])
        return (lambda x, t: 0.5 * t - A(z) @ x), ["x", "t"], z
    # interval in the first coordinate (both ends)
    y = r.uniform(-1, 1, d)
    side = r.choice([-1.0, 1.0])
    y[0] = side
    vals["x"] = y
    n = np.zeros(d)
    n[0] = side
    return (lambda x: (1 - x[0] ** 2) / 2), ["x"], n


def chk(c, ctx):
    d, layout, shape, kind = c["d"], c["layout"], SHAPES[c["shape"]], c["adf"]
    r = gen.rng(c["seed"], 21)
    if kind == "timed" and "t" not in layout:
        kind = "halfspace"
    if kind in ("box", "normalized") and d == 1:
        kind = "interval"
    vals = values(c, r, d)
    adf, aroles, n = boundary(kind, d, r, vals)
    m = M(c["seed"], 1, d, shape, layout, c["mag"])
    f, kw, _ = model_fn(m, layout, c["kw"], None)
    ix = layout.index("x")
    opt, hv = {}, 0.0
    if c["h"] != "none":
        hroles = ["x"] if c["h"] in ("x", "scalar") else subset(r, layout)
        hm = M(c["seed"], 2, d, () if c["h"] == "scalar" else shape, hroles, c["mag_data"])
        opt["h"] = hm.fn(hroles)
        hv = hm.ev(np, vals)
        if not (hroles == ["x"] and ix == 0 and c["ints"]):
            opt["argnums_h"] = argn(layout, hroles, c["ints"])
    elif ix != 0:
        opt["argnums_h"] = ix
    if not (aroles == ["x"] and ix == 0 and c["ints"]):
        opt["argnums_adf"] = argn(layout, aroles, c["ints"])
    if ix != 0 or not c["ints"]:
        opt["argnum_model"] = ix
    u = impose_neumann_bc(adf, **opt)(f) if c["deco"] else impose_neumann_bc(adf, f, **opt)
    args = [A(vals[k]) for k in layout]

    def both(*args):
        g = lambda x: u(*args[:ix], x, *args[ix + 1:], **kw)
        return jax.jvp(g, (args[ix],), (A(n),))
    val, dn = (jax.jit(both) if c["jit"] else both)(*args)
    f0 = np.asarray(f(*args, **kw))
    ctx.shape(val, shape, "constrained model")
    big = max(1.0, c["mag"], c["mag_data"]) * (1 + np.abs(vals["x"]).max())
    ctx.close(val, f0, TOL, "value on the boundary", scale=10.0 * big)
    ctx.close(dn, np.broadcast_to(hv, shape), TOL, f"outward normal derivative ({kind})", scale=20.0 * big)
    ctx.label(kind, "h_" + c["h"], c["shape"], "layout_" + "".join(layout), "decorator" if c["deco"] else "direct", f"d{d}")
    ctx.count(1)


line_cases = st.fixed_dictionaries(dict(seed=gen.seeds, a=gen.num(-2, 2, 2), w=gen.num(0.3, 3, 2), h=st.booleans(), right=st.booleans(), deco=st.booleans()))


def chk_line(c, ctx):
    """Scalar coordinate: an interval of the real line."""
    a, b = c["a"], c["a"] + c["w"]
    adf = lambda x: (x - a) * (b - x) / (b - a)
    r = gen.rng(c["seed"], 3)
    q = np.round(r.uniform(-1, 1, 3), 2)
    f = lambda x, s: s * (q[0] + jnp.sin(q[1] * x + q[2])) * x
    h = (lambda x: jnp.cos(x) + 2.0) if c["h"] else None
    u = impose_neumann_bc(adf, h=h)(f) if c["deco"] else impose_neumann_bc(adf, f, h)
    x, n = (b, 1.0) if c["right"] else (a, -1.0)
    val, dn = jax.jvp(lambda x: u(x, 2.0), (A(x),), (A(n),))
    ctx.close(val, np.asarray(f(A(x), 2.0)), TOL, "value at the end point", scale=10.0)
    ctx.close(dn, (np.cos(x) + 2.0) if c["h"] else 0.0, TOL, "outward derivative at the end point", scale=20.0)
    ctx.label("right" if c["right"] else "left", "flux" if c["h"] else "zero")
    ctx.count(1)


GROUPS = [
    Group("neumann", cases, chk, 640, 12000),
    Group("line", line_cases, chk_line, 160, 3000),
]
