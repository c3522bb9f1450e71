"""C09: boundary maps land on the boundary and cover it uniformly."""
import jax
import numpy as np
from hypothesis import strategies as st

import gen
from core import Group, X64
from ev import A, DT
from magpi import domain as D
from props.c08 import Dom, coord, disk, lone, plane, pos, sized, sph, tup

TOL = 1e-10 if X64 else 1e-4
EPS = float(np.finfo(DT).eps)


def chk_element(ctx, f, k, measure, seed, what, col=False):
    """The surface element is the same everywhere and a whole multiple of the measure (float64 only)."""
    if not X64:
        return
    n, h = 16, 1e-7
    X = gen.rng(seed, 31).uniform(0.01, 0.99, (n, k))
    Z = np.concatenate([X + s * h * np.eye(k)[j] for j in range(k) for s in (1, -1)])
    P = np.asarray(f(A(Z[:, 0] if k == 1 and not col else Z))).astype(float).reshape(k, 2, n, -1)
    J = np.moveaxis((P[:, 0] - P[:, 1]) / (2 * h), 0, -1)
    el = np.sqrt(np.abs(np.linalg.det(np.swapaxes(J, -1, -2) @ J)))
    ref = np.median(el)
    # a difference may straddle a corner
    ctx.true((np.abs(el - ref) > 1e-5 * ref).sum() <= 1, f"{what}: surface element is not constant", elements=el)
    m = ref / measure
    ctx.true(abs(m - round(m)) < 1e-5 * m and round(m) >= 1, f"{what}: surface element is not a multiple of the measure", element=ref, measure=measure)


hyper_cases = sized(st.integers(1, 4).flatmap(lambda d: st.fixed_dictionaries(dict(
    kind=st.just("hypercube"), lb=tup(coord, d), w=tup(st.one_of(pos, gen.pick(0.2, 1.0, 4.0)), d))))).flatmap(
        lambda d: st.fixed_dictionaries(dict(dom=st.just(d), api=gen.pick("class", "fun", "fun"), seed=gen.seeds)))


HYPER = jax.jit(lambda x, lb, ub: D.transform_hypercube_bnd(x, lb, ub))


def bnd_inputs(d, seed):
    """A midpoint grid over the parameters, and some special ones"""
    if d == 1:
        return (np.arange(64) + 0.5) / 64
    n1 = 600
    if d == 2:
        return (np.arange(n1) + 0.5) / n1
    rest = {3: 12, 4: 6}[d]
    n1 = {3: 400, 4: 240}[d]
    g = [(np.arange(n1) + 0.5) / n1] + [(np.arange(rest) + 0.5) / rest] * (d - 2)
    return np.stack(np.meshgrid(*g, indexing="ij"), -1).reshape(-1, d - 1)


def chk_hyper(c, ctx):
    m = c["dom"]
    lb = np.array(m["lb"])
    ub = lb + np.array(m["w"])
    w = 1.0 * (ub - lb)
    d = len(lb)
    if c["api"] == "class":
        f = D.Hypercube(tuple(lb.tolist()), tuple(ub.tolist())).transform_bnd
    else:
        f = lambda x: HYPER(x, A(lb), A(ub))
    s = np.abs(np.stack([lb, ub])).max() + lone(m)
    ctx.label(f"dim{d}", c["api"], f"size-{m.get('mag', 1.0)}")
    t = TOL * s * 10

    def onb(P, what, x):
        P = np.asarray(P, float).reshape(-1, d)
        dl, du = np.abs(P - lb), np.abs(P - ub)
        ok = ((P >= lb - t) & (P <= ub + t)).all(-1) & (np.minimum(dl, du).min(-1) <= t)
        ctx.count(len(P))
        if not ok.all():
            i = int(np.argmin(ok))
            ctx.fail(f"{what}: not on the boundary", parameter=np.asarray(x).reshape(len(P), -1)[i], point=P[i], lb=lb, ub=ub)
        return P, np.concatenate([dl, du], -1)

    X = bnd_inputs(d, c["seed"])
    P = f(A(X))
    if d > 1:
        ctx.shape(P, (len(X), d), "boundary points")
    P, dist = onb(P, "hypercube boundary", X)
    # shares of the 2d faces and uniformity inside each
    face = dist.argmin(-1)
    area = np.array([np.prod(np.delete(w, i)) for i in range(d)] * 2)
    share = area / area.sum()
    got = np.bincount(face, minlength=2 * d) / len(P)
    n1 = {1: 64, 2: 600, 3: 400, 4: 240}[d]
    ctx.close(got, share, 4.0 / n1, "share of a face is not proportional to its size", scale=1.0, widths=w)
    if d > 1:
        for k in range(2 * d):
            Q = np.delete(P[face == k], k % d, 1)
            m = len(np.unique(np.round((P[face == k]) / w, 6), axis=0))
            cnt = share[k] * n1
            if cnt < 15:
                continue
            lo, ww = np.delete(lb, k % d), np.delete(w, k % d)
            U = (Q - lo) / ww
            ctx.close(U.mean(0), np.full(d - 1, 0.5), 2.0 / cnt + 0.01, "face is not covered evenly (mean)", scale=1.0, face=k, widths=w)
            ctx.close(U.var(0), np.full(d - 1, 1 / 12), 2.0 / cnt + 0.01, "face is not covered evenly (variance)", scale=1.0, face=k, widths=w)
            ctx.label("face-checked")
    if d > 1:
        chk_element(ctx, f, d - 1, area.sum(), c["seed"], "hypercube boundary")
    # special parameters: ends, next to face changes, above one, single points
    r = gen.rng(c["seed"])
    cum = np.cumsum(share)
    sp = np.concatenate([[0.0, 1.0, 1 - EPS, 1 - EPS / 2, 0.5, 0.5 + EPS, 1.25, 2.75, -0.25, -1e-18], cum, np.clip(cum - EPS, 0, None), cum + EPS, r.random(4)])
    if d > 2:
        sp = np.concatenate([sp[:, None], r.choice([0.0, 0.25, 1.0, 1 - EPS, 0.7], (len(sp), d - 2))], -1)
    Y = f(A(sp))
    onb(Y, "special parameter", sp)
    for i in gen.rng(c["seed"], 2).integers(0, len(sp), 2):
        if d <= 2:
            y = np.asarray(f(A(sp[i])))
        else:
            y = np.asarray(f(A(sp[i])))
        ctx.true(y.shape == (d,), "single parameter gives a single point", shape=y.shape, dim=d)
        onb(y, "single parameter", sp[i])
        if d > 1:
            ctx.close(y, np.asarray(Y)[i], 1e-12 if X64 else 1e-5, "single and batched parameter differ", scale=s)


def arc_coordinate(P, V):
    """closest point on the polygon through V (closed): (distance, arc length)"""
    seg = np.roll(V, -1, 0) - V
    L = np.linalg.norm(seg, axis=-1)
    cum = np.concatenate([[0], np.cumsum(L)])
    best, arc = np.full(len(P), np.inf), np.zeros(len(P))
    for i in range(len(V)):
        u = np.clip((P - V[i]) @ seg[i] / L[i] ** 2, 0, 1)
        dd = np.linalg.norm(P - V[i] - u[:, None] * seg[i], axis=-1)
        m = dd < best
        best, arc = np.where(m, dd, best), np.where(m, cum[i] + u * L[i], arc)
    return best, arc, cum[-1]


def ks(u):
    u = np.sort(u)
    n = len(u)
    return max(np.max(np.arange(1, n + 1) / n - u), np.max(u - np.arange(n) / n))


par_cases = st.fixed_dictionaries(dict(dom=sized(plane("parallelogram")), seed=gen.seeds))


def chk_par(c, ctx):
    m = Dom(c["dom"], "class")
    a, b, cc = m.corners
    V = np.stack([a, b, b + cc - a, cc])
    n = 500
    s = np.concatenate([(np.arange(n) + 0.5) / n])
    P = ctx.shape(m.dom.transform_bnd(A(s)), (n, len(a)), "boundary points").astype(float)
    dist, arc, L = arc_coordinate(P, V)
    ctx.count(n)
    ctx.true(dist.max() <= TOL * m.scale * 20, "point is not on the boundary of the parallelogram", corners=V,
             parameter=s[dist.argmax()], point=P[dist.argmax()])
    k = ks(arc / L)
    chk_element(ctx, m.dom.transform_bnd, 1, L, c["seed"], "parallelogram boundary")
    ctx.true(k <= 4.0 / n, "boundary of the parallelogram is not covered uniformly", corners=V, ks=k)
    sp = np.concatenate([[0, 1, 1 - EPS, 0.25, 1.5, -0.25, -1e-18], gen.rng(c["seed"]).random(3)])
    for v in sp:
        y = ctx.shape(m.dom.transform_bnd(A(v)), (len(a),), "single point").astype(float)
        dist, _, _ = arc_coordinate(y[None], V)
        ctx.true(dist[0] <= TOL * m.scale * 20, "point is not on the boundary of the parallelogram", parameter=v, point=y)
    ctx.label("origin" if not np.any(a) else "shifted", f"ambient{len(a)}")


circ_cases = st.fixed_dictionaries(dict(dom=sized(disk), api=gen.pick("class", "fun"), col=st.booleans(), seed=gen.seeds))


def chk_circle(c, ctx):
    r, o = c["dom"]["r"], np.array(c["dom"]["o"])
    f = D.Disk(r, tuple(o.tolist())).transform_bnd if c["api"] == "class" else (lambda s: D.transform_circle_bnd(s, A(r), A(o)))
    n = 400
    s = (np.arange(n) + 0.5) / n + (gen.rng(c["seed"]).integers(0, 3) if c["seed"] % 3 == 0 else 0)
    P = ctx.shape(f(A(s[:, None] if c["col"] else s)), (n, 2), "circle points").astype(float)
    ctx.count(n)
    ctx.close(np.linalg.norm(P - o, axis=-1), np.full(n, r), TOL * 10, "point is not on the circle", scale=lone(c['dom']) + np.abs(o).max() + r)
    th = np.arctan2(P[:, 1] - o[1], P[:, 0] - o[0]) / (2 * np.pi) % 1.0
    ctx.true(ks(th) <= 6.0 / n, "circle is not covered uniformly", ks=ks(th))
    chk_element(ctx, f, 1, 2 * np.pi * r, c["seed"], "circle", col=c["col"])
    v = float(gen.rng(c["seed"]).random())
    y = ctx.shape(f(A(v)), (2,), "single point")
    ctx.close(np.linalg.norm(y - o), r, TOL * 10, "point is not on the circle", scale=lone(c['dom']) + np.abs(o).max() + r)
    ctx.label("circle")


sph_cases = st.fixed_dictionaries(dict(dom=sized(sph), api=gen.pick("class", "fun"), seed=gen.seeds))


def chk_sphere(c, ctx):
    r, o = c["dom"]["r"], np.array(c["dom"]["o"])
    f = D.Sphere(r, tuple(o.tolist())).transform_bnd if c["api"] == "class" else (lambda x: D.transform_sphere_bnd(x, A(r), A(o)))
    rr = gen.rng(c["seed"])
    n = 40
    g = (np.arange(n) + 0.5) / n
    X = np.stack(np.meshgrid(g, g, indexing="ij"), -1).reshape(-1, 2)
    P = ctx.shape(f(A(X)), (n * n, 3), "sphere points").astype(float)
    sc = lone(c['dom']) + np.abs(o).max() + r
    ctx.count(len(P))
    ctx.close(np.linalg.norm(P - o, axis=-1), np.full(len(P), r), TOL * 100, "point is not on the sphere", scale=sc)
    U = (P - o) / r
    ctx.close(U.mean(0), np.zeros(3), 5e-3, "sphere is not covered evenly (mean)", scale=1.0)
    ctx.close(U.T @ U / len(U), np.eye(3) / 3, 1e-2, "sphere is not covered evenly (second moments)", scale=1.0)
    for j in range(3):
        ctx.true(ks((U[:, j] + 1) / 2) <= 3e-2, "sphere coordinates are not uniform", coordinate=j)
    x = rr.uniform(0.05, 0.95, (12, 2))
    J = np.asarray(jax.jit(jax.vmap(jax.jacfwd(f)))(A(x))).astype(float)
    el = np.linalg.norm(np.cross(J[..., 0], J[..., 1]), axis=-1)
    ctx.close(el, np.full(12, np.median(el)), 1e-6 if X64 else 5e-3, "area element is not constant", scale=np.median(el))
    chk_element(ctx, f, 2, 4 * np.pi * r**2, c["seed"], "sphere")
    sp = rr.choice([0.0, 1.0, 1 - EPS, 0.5, 1.5, 2.25], (8, 2))
    Y = ctx.finite(f(A(sp)), "sphere points").astype(float)
    ctx.close(np.linalg.norm(Y - o, axis=-1), np.full(8, r), TOL * 100, "point is not on the sphere", scale=sc)
    y = ctx.shape(f(A(sp[0])), (3,), "single point")
    ctx.close(y, Y[0], TOL, "single and batched parameter differ", scale=sc)
    ctx.label("sphere")


poly_cases = st.fixed_dictionaries(dict(
    n=st.one_of(st.integers(2, 8), gen.pick(2, 3, 30, 60, 100)), dim=st.integers(1, 3), closed=st.booleans(), seed=gen.seeds,
    lattice=st.booleans(), scale=gen.pick(1.0, 1.0, 100.0, 0.01, 1e4), off=gen.pick(0.0, 0.0, 5.0), jit=gen.pick(False, False, True)))


def chk_poly(c, ctx):
    r = gen.rng(c["seed"])
    k = c["n"]
    V = r.integers(-3, 4, (k, c["dim"])).astype(float) if c["lattice"] else r.normal(size=(k, c["dim"]))
    for i in range(1, k):  # no empty segments
        if np.linalg.norm(V[i] - V[i - 1]) < 0.05:
            V[i, 0] = V[i - 1, 0] + 1.0
    if c["closed"] and k > 2 and np.linalg.norm(V[-1] - V[0]) > 0.05:
        V = np.concatenate([V, V[:1]])
    V = (V + c.get("off", 0.0)) * c["scale"]
    L = np.linalg.norm(np.diff(V, axis=0), axis=-1)
    cum = np.concatenate([[0], np.cumsum(L)])
    ends = cum[1:-1] / cum[-1]
    s = np.concatenate([[0, 1, 1 - EPS / 2, 1 - EPS, 1 - 2 * EPS, 1e-12, 0.5, 1.25, 3.5, -0.25, -3.5, -1e-18, -1e-30], ends[:6], np.clip(ends[:4] + EPS, 0, 1),
                        np.clip(ends[:4] - EPS, 0, 1), r.random(12)])
    s = s.astype(DT)
    f = jax.jit(D.transform_polyline) if c.get("jit") else D.transform_polyline
    P = ctx.finite(f(A(s), tuple(A(v) for v in V)), "polyline points").astype(float)
    ctx.shape(P, (len(s), c["dim"]), "polyline points")
    ctx.count(len(s))
    t = np.mod(s, DT(1)).astype(float) * cum[-1]
    i = np.clip(np.searchsorted(cum, t, side="left") - 1, 0, len(L) - 1)
    E = V[i] + ((t - cum[i]) / L[i])[:, None] * (V[i + 1] - V[i])
    err = np.abs(P - E).max(-1)
    err = np.where((s < 0) & (s > -EPS / 4), np.minimum(err, np.abs(P - V[0]).max(-1)), err)  # wraps to either end of the parameter interval
    bad = err > (1e-9 if X64 else 2e-4) * cum[-1]
    if bad.any():
        j = int(np.argmax(bad))
        ctx.fail("polyline point is not at its arc length", parameter=s[j], got=P[j], expected=E[j], vertices=V[:8], n=len(V))
    y = D.transform_polyline(A(s[-1]), tuple(A(v) for v in V))
    ctx.close(y, E[-1], 1e-9 if X64 else 2e-4, "single parameter", scale=cum[-1])
    ctx.label(f"n{min(k, 10)}", "closed" if c["closed"] else "open")


GROUPS = [
    Group("hypercube", hyper_cases, chk_hyper, 200, 3000),
    Group("parallelogram", par_cases, chk_par, 120, 2000),
    Group("circle", circ_cases, chk_circle, 80, 1500),
    Group("sphere", sph_cases, chk_sphere, 80, 1500),
    Group("polyline", poly_cases, chk_poly, 320, 6000),
]
