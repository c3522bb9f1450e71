"""C04: transformations move a solid exactly as named, in any order."""
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import gen
from core import Group, X64
from ev import A, batch
from magpi import r_fun
from props import xform

probe = st.fixed_dictionaries(dict(w=gen.vec(9, -2, 2, 2), b=gen.num(-1, 1, 2)))


def probe_fn(p, d, xp):
    """A generic function without symmetries (the identity of a solid is its value everywhere)."""
    w = np.array(p["w"])
    w = np.where(np.abs(w) < 0.1, 0.7, w)

    def f(x):
        y = 0.3 + p["b"]
        for i in range(d):
            y = y + w[i] * x[..., i] + 0.5 * xp.sin(w[3 + i] * x[..., i] + i + 0.4)
            y = y + 0.1 * w[(6 + i) % 9] * x[..., i] * x[..., (i + 1) % d]
        return y
    return f


chain_cases = gen.pick(1, 2, 3, 2, 3, 3, 4).flatmap(lambda d: st.fixed_dictionaries(dict(
    dim=st.just(d), spread=gen.pick(3.0, 3.0, 3.0, 0.1, 40.0), chain=xform.chain(d), probe=probe, seed=gen.seeds, mode=gen.pick("vmap", "vmap", "jit", "loop", "eager"))))


def run_chain(c, ctx, adf, x, chain):
    for t in chain:
        adf = xform.apply(adf, t)
    fac = 1.0
    for t in reversed(chain):
        x, s = xform.inverse(t, x)
        fac *= s
    return adf, x, fac


def tolerance(y, fac, chain):
    k = 1e-10 if X64 else 2e-4
    s = 1.0
    for t in chain:
        if t[0] in ("scale", "scale_free"):
            s *= max(1.0, 1.0 / float(np.min(t[1])))
    return k * s * (1 + np.abs(y).max()) ** 2 * max(1.0, fac) * (1 + 3 * len(chain))


def chk_chain(c, ctx):
    d = c["dim"]
    X = gen.rng(c["seed"]).uniform(-1, 1, (16, d)) * c.get("spread", 3.0)
    adf, Y, fac = run_chain(c, ctx, probe_fn(c["probe"], d, jnp), X, c["chain"])
    for t in c["chain"]:
        ctx.label(t[0])
    ctx.label(f"len{len(c['chain'])}", f"dim{d}")
    v, n = batch(adf, X, c["mode"], 6)
    ctx.count(n)
    e = probe_fn(c["probe"], d, np)(Y)[:n] * fac
    ctx.close(v, e, tolerance(Y, fac, c["chain"]), "transformed ADF", scale=1.0, chain=str(c["chain"]))


rev_cases = st.fixed_dictionaries(dict(axis=gen.pick(0, 1, None), inner=xform.chain(2, 0, 2), outer=xform.chain(3, 0, 2),
                                       probe=probe, seed=gen.seeds, mode=gen.pick("vmap", "jit", "loop", "eager")))


def chk_rev(c, ctx):
    X = gen.rng(c["seed"]).uniform(-3, 3, (16, 3))
    f = probe_fn(c["probe"], 2, jnp)
    for t in c["inner"]:
        f = xform.apply(f, t)
    f = r_fun.revolution(f) if c["axis"] is None else r_fun.revolution(f, c["axis"])
    for t in c["outer"]:
        f = xform.apply(f, t)
    Y, fac = X, 1.0
    for t in reversed(c["outer"]):
        Y, s = xform.inverse(t, Y)
        fac *= s
    if c["axis"] in (None, 0):
        Z = np.stack([Y[:, 0], np.hypot(Y[:, 1], Y[:, 2])], -1)
    else:
        Z = np.stack([np.hypot(Y[:, 0], Y[:, 2]), Y[:, 1]], -1)
    for t in reversed(c["inner"]):
        Z, s = xform.inverse(t, Z)
        fac *= s
    v, n = batch(f, X, c["mode"], 6)
    ctx.count(n)
    ctx.label(f"axis{c['axis']}")
    e = probe_fn(c["probe"], 2, np)(Z)[:n] * fac
    ctx.close(v, e, tolerance(np.concatenate([Y, Z], -1), fac, c["inner"] + c["outer"]) * 2, "body of revolution", scale=1.0)


solid_cases = st.integers(2, 3).flatmap(lambda d: st.fixed_dictionaries(dict(
    dim=st.just(d), chain=xform.chain(d, 1, 3, rigid=True), edges=gen.vec(d, 0.3, 3, 2), center=st.booleans(), seed=gen.seeds)))


def chk_solid(c, ctx):
    """Membership: a moved solid contains exactly the moved points (asymmetric boxes)."""
    d = c["dim"]
    e = np.array(c["edges"])
    f = r_fun.cuboid(c["edges"], centering=c["center"])
    lb = -e / 2 if c["center"] else np.zeros(d)
    P = lb + e * gen.rng(c["seed"]).uniform(-0.5, 1.5, (24, d))
    s = np.minimum(P - lb, lb + e - P).min(-1)
    X, N = P, np.zeros_like(P)
    for t in c["chain"]:
        f = xform.apply(f, t)
        X, N = xform.forward(t, X, N)
    v, n = batch(f, X, "vmap")
    keep = np.abs(s) > 5e-3
    ctx.count(int(keep.sum()))
    bad = keep & (np.sign(v) != np.sign(s))
    ctx.trivial(not ((s[keep] > 0).any() and (s[keep] < 0).any()))
    if bad.any():
        i = int(np.argmax(bad))
        ctx.fail("moved solid does not contain the moved point", point=P[i], moved=X[i], signed=s[i], value=v[i], chain=str(c["chain"]))


reject_cases = st.one_of(
    st.tuples(st.just("no-axis"), gen.num(-3, 3), st.just(0)),
    st.tuples(st.just("axis-and-euler"), gen.vec(3, -3, 3), gen.vec_nz(3)),
    st.tuples(st.just("angle-shape"), st.sampled_from([1, 2, 4, 5]).flatmap(lambda n: gen.vec(n, -3, 3)), st.booleans()),
    st.tuples(st.just("rev-axis"), st.sampled_from([2, 3, -1, 7]), st.just(0)),
    st.tuples(st.just("scale-vec"), st.integers(2, 4).flatmap(lambda n: gen.vec(n, 0.5, 3)), st.booleans()),
    st.tuples(st.just("rot2-dim"), gen.num(-3, 3), st.sampled_from([3, 4])),
    st.tuples(st.just("rot3-dim"), gen.num(-3, 3), st.sampled_from([2, 4])),
    st.tuples(st.just("rev-dim"), st.sampled_from([0, 1]), st.sampled_from([1, 2, 4]))).map(list)


def chk_reject(c, ctx):
    k, a, b = c
    f = lambda x: jnp.sum(x)
    x3 = A([1.0, 2.0, 3.0])
    run = {
        "no-axis": lambda: r_fun.rotate3d(f, a)(x3),
        "axis-and-euler": lambda: r_fun.rotate3d(f, a, b)(x3),
        "angle-shape": lambda: r_fun.rotate3d(f, a, *([(0.0, 0.0, 1.0)] if b else []))(x3),
        "rev-axis": lambda: r_fun.revolution(f, a)(x3),
        "scale-vec": lambda: r_fun.scale(f, A(a) if b else a)(A(np.ones(len(a)))),
        "rot2-dim": lambda: r_fun.rotate2d(f, a)(A(np.ones(b))),
        "rot3-dim": lambda: r_fun.rotate3d(f, a, (0.0, 0.0, 1.0))(A(np.ones(b))),
        "rev-dim": lambda: r_fun.revolution(f, a)(A(np.ones(b))),
    }[k]
    ctx.label(k)
    try:
        out = run()
    except Exception:
        return
    ctx.fail("invalid combination accepted", what=k, a=a, b=b, result=out)


GROUPS = [
    Group("chain", chain_cases, chk_chain, 700, 14000),
    Group("revolution", rev_cases, chk_rev, 150, 3000),
    Group("solid", solid_cases, chk_solid, 300, 5000),
    Group("reject", reject_cases, chk_reject, 80, 300),
]
