"""C10: domain queries report measure, membership and outward normals correctly."""
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import gen
from core import Group, X64
from ev import A, DT
from magpi import domain as D
from props.c08 import Dom, coord, domains, pos, tup

TOL = 1e-11 if X64 else 2e-5
NEAR = 1e-9 if X64 else 3e-5

meas_cases = st.fixed_dictionaries(dict(dom=domains.filter(lambda d: d["kind"] != "triangle")))


def make(c):
    k = c["kind"]
    t = lambda v: tuple(np.asarray(v).tolist())
    if k == "hypercube":
        return D.Hypercube(t(c["lb"]), t(np.array(c["lb"]) + c["w"])), len(c["lb"])
    if k == "parallelogram":
        m = Dom(c, "class")
        return m.dom, len(c["a"])
    if k == "disk":
        return D.Disk(c["r"], t(c["o"])), 2
    if k == "annulus":
        return D.Annulus(c["r1"], c["r1"] + c["dr"], t(c["o"])), 2
    return D.Sphere(c["r"], t(c["o"])), 3


def chk_measure(c, ctx):
    dom, dim = make(c["dom"])
    m = Dom(c["dom"], "class")
    ctx.close(dom.support(), m.measure, (TOL if c["dom"]["kind"] != "parallelogram" else TOL * 1e3), "measure", scale=m.measure, check_shape=False, domain=str(c["dom"]))
    ctx.true(np.ndim(dom.support()) == 0, "measure is a scalar")
    ctx.true(dom.dimension == dim, "dimension", got=dom.dimension, expected=dim)
    ctx.label(c["dom"]["kind"], f"size-{c['dom'].get('mag', 1.0)}")
    ctx.count(1)


# equality and hashing ------------------------------------------------------------------------
def params(kind):
    return {
        "hypercube": st.integers(1, 3).flatmap(lambda d: st.tuples(tup(coord, d), tup(coord, d))),
        "parallelogram": gen.pick(2, 3).flatmap(lambda d: st.tuples(*[tup(coord, d)] * 3)),
        "disk": st.tuples(pos, tup(coord, 2)), "sphere": st.tuples(pos, tup(coord, 3)),
        "annulus": st.tuples(pos, pos, tup(coord, 2))}[kind]


CLS = dict(hypercube=D.Hypercube, parallelogram=D.Parallelogram, disk=D.Disk, sphere=D.Sphere, annulus=D.Annulus)
hash_cases = gen.pick(*CLS).flatmap(lambda k: st.fixed_dictionaries(dict(
    kind=st.just(k), p=params(k).map(list), i=st.integers(0, 20), delta=gen.pick(0.5, 1.0, 2.0))))


def chk_hash(c, ctx):
    p = c["p"]
    mk = lambda p: CLS[c["kind"]](*[tuple(x) if isinstance(x, (list, tuple)) else x for x in p])
    a, b = mk(p), mk(p)
    ctx.true(a == b, "domains with equal parameters are not equal", domain=str(a))
    ctx.true(hash(a) == hash(b), "equal domains hash differently", domain=str(a))
    ctx.true(len({a, b}) == 1 and {a: 1}[b] == 1, "equal domains are different keys")
    whole = [[int(v) for v in x] if isinstance(x, (list, tuple)) else int(x) + 1 for x in p]
    real = [[float(v) for v in x] if isinstance(x, list) else float(x) for x in whole]
    ctx.true(mk(whole) == mk(real) and hash(mk(whole)) == hash(mk(real)), "equal parameters given as integers and floats: domains differ")
    # change one number
    flat = [(i, j) for i, x in enumerate(p) for j in (range(len(x)) if isinstance(x, (list, tuple)) else [None])]
    i, j = flat[c["i"] % len(flat)]
    q = [list(x) if isinstance(x, (list, tuple)) else x for x in p]
    if j is None:
        q[i] += c["delta"]
    else:
        q[i][j] += c["delta"]
    ctx.true(not (a == mk(q)), "domains with different parameters are equal", a=str(p), b=str(q))
    ctx.true(a != mk(q), "!= disagrees with ==")
    ctx.label(c["kind"])
    ctx.count(2)


# membership ---------------------------------------------------------------------------------
q8 = st.integers(-24, 24).map(lambda i: i / 8)  # dyadic: exactly representable
w8 = st.integers(1, 24).map(lambda i: i / 8)
inc_cases = st.one_of(
    st.integers(1, 4).flatmap(lambda d: st.fixed_dictionaries(dict(kind=st.just("hypercube"), lb=tup(q8, d), w=tup(w8, d), seed=gen.seeds,
                                                                   shape=gen.pick([6], [], [2, 3])))),
    st.fixed_dictionaries(dict(kind=gen.pick("disk", "sphere"), r=w8, o=tup(q8, 3), seed=gen.seeds, shape=gen.pick([6], [], [2, 3]))))


def chk_includes(c, ctx):
    r = gen.rng(c["seed"])
    ctx.label(c["kind"], f"batch{len(c['shape'])}")
    if c["kind"] == "hypercube":
        lb = np.array(c["lb"])
        ub = lb + c["w"]
        dom = D.Hypercube(tuple(lb.tolist()), tuple(ub.tolist()))
        X = lb + (ub - lb) * r.choice([0.0, 1.0, 0.5, -0.25, 1.25, 0.125], (*c["shape"], len(lb)))
        # next to a bound
        ulp = lambda v, s: np.where(v == 0, s * 1e-30, np.nextafter(v.astype(DT), DT(s * np.inf)).astype(float))
        near = r.random(X.shape)
        X = np.where(near < 0.1, ulp(ub, 1), np.where(near < 0.2, ulp(lb, -1), np.where(near < 0.25, ulp(ub, -1), np.where(near < 0.3, ulp(lb, 1), X))))
        X = X.astype(DT).astype(float)
        e = (X >= lb) & (X <= ub)
        got = ctx.shape(dom.includes(A(X)), X.shape, "membership per component")
    else:
        n = 2 if c["kind"] == "disk" else 3
        o = np.array(c["o"][:n])
        dom = (D.Disk if n == 2 else D.Sphere)(c["r"], tuple(o.tolist()))
        # radii below, above and exactly at the radius (axis points are exact)
        U = r.normal(size=(*c["shape"], n))
        U /= np.linalg.norm(U, axis=-1, keepdims=True)
        U = np.where(r.random((*c["shape"], 1)) < 0.4, np.eye(n)[r.integers(0, n, c["shape"])] * r.choice([-1, 1], (*c["shape"], 1)), U)
        axis = (np.abs(U) == 1).any(-1)
        f = np.where(axis, r.choice([1.0, 0.5, 1.5], c["shape"]), r.choice([0.97, 1.03, 0.0, 0.4, 3.0, 1 - NEAR, 1 + NEAR], c["shape"]))
        X = o + U * (f * c["r"])[..., None]
        e = f < 1
        got = ctx.shape(dom.includes(A(X)), tuple(c["shape"]), "membership per point")
    ctx.count(e.size)
    if not (got == e).all():
        i = tuple(np.argwhere(got != e)[0]) if e.ndim else ()
        ctx.fail("membership", point=X[i[:max(X.ndim - 1, 0)]], got=got[i], expected=e[i], domain=str(c))


# normals ------------------------------------------------------------------------------------
nh_cases = st.integers(1, 4).flatmap(lambda d: st.fixed_dictionaries(dict(
    lb=tup(coord, d), w=tup(gen.num(0.5, 3, 2), d), seed=gen.seeds, shape=gen.pick([5], [], [1], [2, 3]),
    corners=st.booleans(), spoil=gen.pick("none", "none", "interior", "outside", "plane", "all-outside", "near-in", "near-out"), tol=gen.pick("", "", "both", "rtol", "atol", "tight"))))


def chk_normal_cube(c, ctx):
    lb = np.array(c["lb"])
    ub = lb + np.array(c["w"])
    d = len(lb)
    dom = D.Hypercube(tuple(lb.tolist()), tuple(ub.tolist()))
    r = gen.rng(c["seed"])
    sh = tuple(c["shape"])
    X = lb + (ub - lb) * r.uniform(0.2, 0.8, (*sh, d))
    ax = r.integers(0, d, sh)
    on = np.zeros((*sh, d), bool)
    np.put_along_axis(on, np.asarray(ax)[..., None], True, -1)
    if c["corners"]:
        on |= r.random((*sh, d)) < 0.6
    side = r.random((*sh, d)) < 0.5
    X = np.where(on, np.where(side, ub, lb), X)
    kw = {}
    if c["tol"] and X64:
        kw = {"rtol": dict(rtol=4e-3), "atol": dict(atol=2e-3), "tight": dict(rtol=0.0, atol=1e-5)}.get(c["tol"], dict(rtol=1e-3, atol=1e-3))
    width = lambda b: kw.get("rtol", 1e-5) * np.abs(b) + kw.get("atol", 1e-8)  # distance still taken as on the face at b
    if kw:
        X = np.where(on, X + r.uniform(-0.9, 0.9, X.shape) * width(np.where(side, ub, lb)), X)
    sp = c["spoil"]
    flat = X.reshape(-1, d)
    k = int(r.integers(0, len(flat)))
    if sp == "interior":
        flat[k] = lb + (ub - lb) * r.uniform(0.2, 0.8, d)
    elif sp == "outside":
        flat[k] = ub + (ub - lb) * 0.3
    elif sp == "all-outside":
        flat[:] = ub + (ub - lb) * r.uniform(0.1, 0.5, flat.shape)
    elif sp.startswith("near"):
        # off one face by little more than the tolerance
        flat[k] = lb + (ub - lb) * 0.5
        a = int(r.integers(0, d))
        lo = r.random() < 0.5
        b = lb[a] if lo else ub[a]
        off = 1.3 * width(b) if X64 else 3e-3 * (1 + abs(b))
        flat[k, a] = b + off * (1 if lo else -1) * (1 if sp == "near-in" else -1)
    elif sp == "plane" and d > 1:
        # on the plane of a face but beyond it
        flat[k] = lb + (ub - lb) * 0.5
        a = int(r.integers(0, d))
        flat[k, a] = lb[a] if r.random() < 0.5 else ub[a]
        flat[k, (a + 1) % d] = ub[(a + 1) % d] + 0.3 * (ub - lb)[(a + 1) % d]
    elif sp == "plane":
        sp = "none"
    X = flat.reshape(X.shape)
    n = dom.normal_vec(A(X), **kw)
    ctx.count(len(flat))
    ctx.label(f"dim{d}", f"batch{len(sh)}", "spoil-" + sp, "corners" if c["corners"] else "faces")
    if sp != "none":
        ctx.true(n is None, "a point off the boundary must give None", points=X, normals=n, lb=lb, ub=ub)
        return
    ctx.true(n is not None, "boundary points have no normal", points=X, lb=lb, ub=ub)
    n = ctx.shape(n, X.shape, "normals")
    ctx.close(np.linalg.norm(n, axis=-1), np.ones(sh), 1e-12 if X64 else 1e-6, "normal is not a unit vector")
    nf, of, sf = n.reshape(-1, d), on.reshape(-1, d), side.reshape(-1, d)
    for i in range(len(nf)):
        j = int(np.argmax(np.abs(nf[i])))
        ok = of[i, j] and np.sign(nf[i, j]) == (1 if sf[i, j] else -1) and np.sum(nf[i] != 0) == 1
        ctx.true(ok, "normal is not the outward normal of an adjacent face", point=flat[i], normal=nf[i], lb=lb, ub=ub)


ns_cases = st.fixed_dictionaries(dict(dim=gen.pick(2, 3), r=pos, o=tup(coord, 3), seed=gen.seeds, shape=gen.pick([5], [], [1], [2, 3], [2], [3]),
                                      spoil=gen.pick("none", "none", "interior", "outside", "near-in", "near-out"), tol=gen.pick("", "", "rtol", "atol", "both"), mag=gen.pick(1.0, 1.0, 0.01, 200.0)))


def chk_normal_sphere(c, ctx):
    n = c["dim"]
    mag = c.get("mag", 1.0)
    o, rad = np.array(c["o"][:n]) * mag, c["r"] * mag
    dom = (D.Disk if n == 2 else D.Sphere)(rad, tuple(o.tolist()))
    r = gen.rng(c["seed"])
    sh = tuple(c["shape"])
    U = r.normal(size=(*sh, n))
    U /= np.linalg.norm(U, axis=-1, keepdims=True)
    f = np.ones((*sh, 1))
    kw = {} if X64 else dict(rtol=1e-3)
    if c["tol"]:
        kw = {"atol": dict(rtol=1e-4, atol=1e-2 * rad), "both": dict(rtol=5e-3, atol=6e-3 * rad)}.get(c["tol"], dict(rtol=1e-2))
        f = 1 + r.uniform(-0.9, 0.9, f.shape) * 1e-2
    flat = f.reshape(-1)
    eps = 1.3e-2 if c["tol"] else 1e-4 if X64 else 4e-3
    if c["spoil"] != "none":
        flat[int(r.integers(0, len(flat)))] = {"interior": 0.9, "outside": 1.1, "near-in": 1 - eps, "near-out": 1 + eps}[c["spoil"]]
    X = o + U * rad * f
    v = dom.normal_vec(A(X), **kw)
    ctx.count(len(flat))
    ctx.label(f"dim{n}", f"batch{len(sh)}", c["spoil"])
    if c["spoil"] != "none":
        ctx.true(v is None, "a point off the boundary must give None", points=X, normals=v)
        return
    ctx.true(v is not None, "boundary points have no normal", points=X, radius=rad, origin=o)
    ctx.close(v, U, 1e-9 if X64 else 1e-3, "outward unit normal", scale=1.0, points=X)


GROUPS = [
    Group("measure", meas_cases, chk_measure, 200, 4000),
    Group("hash", hash_cases, chk_hash, 200, 2000),
    Group("includes", inc_cases, chk_includes, 250, 5000),
    Group("normal_cube", nh_cases, chk_normal_cube, 350, 8000),
    Group("normal_sphere", ns_cases, chk_normal_sphere, 200, 4000),
]
