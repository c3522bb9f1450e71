"""C08: domain maps send the unit cube uniformly into and onto the domain."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import gen
from core import Group, Skip, X64
from ev import A
from magpi import domain as D

TOL = 1e-10 if X64 else 1e-4
coord = gen.num(-3, 3, 2)
pos = gen.num(0.2, 3, 2)


def tup(s, n):
    return st.lists(s, min_size=n, max_size=n)


hyper = gen.pick(1, 2, 3, 4, 1, 2, 3, 4, 5, 6).flatmap(lambda d: st.fixed_dictionaries(dict(kind=st.just("hypercube"), lb=tup(coord, d), w=tup(pos, d))))
amb = gen.pick(2, 2, 3)
plane = lambda k: amb.flatmap(lambda d: st.fixed_dictionaries(dict(kind=st.just(k), a=tup(coord, d), d1=gen.vec_nz(d), d2=gen.vec_nz(d))))
disk = st.fixed_dictionaries(dict(kind=st.just("disk"), r=pos, o=tup(coord, 2)))
ann = st.fixed_dictionaries(dict(kind=st.just("annulus"), r1=gen.num(0, 2, 2), dr=pos, o=tup(coord, 2)))
sph = st.fixed_dictionaries(dict(kind=st.just("sphere"), r=pos, o=tup(coord, 3)))
shapes = st.one_of(hyper, plane("parallelogram"), plane("triangle"), disk, ann, sph)
# size of everything; "int": integer sizes and places given as Python integers; "far": away from the origin
MAGS = [1.0, 1.0, 1.0, "int", "int", "far", 0.01, 37.0, 1000.0] if X64 else [1.0, 1.0, 1.0, "int", "far", 0.05, 20.0]
domains = st.deferred(lambda: sized(shapes))


def resize(c, mag, seed):
    """the same domain in another size or place"""
    c = dict(c, mag=mag)
    if mag == 1.0:
        return c
    r = np.random.default_rng(seed)
    big = int(r.choice([1, 1, 3, 100, 60000 if X64 else 3000]))
    for k, v in c.items():
        if k in ("kind", "mag"):
            continue
        size = k in ("w", "r", "dr")
        if mag == "int":
            if size:
                w = [max(1, round(abs(x))) * big for x in np.ravel(v).tolist()]
            else:
                w = [round(x) * big for x in np.ravel(v).tolist()]
        elif mag == "far":
            off = 1.0 * r.choice([-1, 1]) * (40 if X64 else 8) if k in ("lb", "o", "a") else 0.0
            w = [round(x + off, 4) for x in np.ravel(v).tolist()]
        else:
            w = [round(x * mag, 8) for x in np.ravel(v).tolist()]
        c[k] = w if isinstance(v, list) else w[0]
    return c


def number(c):
    return 1.0 if isinstance(c.get("mag", 1.0), str) else c.get("mag", 1.0)


def lone(c):
    """a length below which rounding does not matter"""
    return min(1.0, number(c))


def sized(dom):
    return st.tuples(dom, gen.pick(*MAGS), gen.seeds).map(lambda t: resize(*t))


def tidy(c):
    """directions of a plane that are far from parallel"""
    d1, d2 = np.array(c["d1"]), np.array(c["d2"])
    unit = number(c)
    whole = c.get("mag") == "int"
    if not np.any(d1):
        d1 = d1 + (np.arange(len(d1)) == 0)
    n1, n2 = np.linalg.norm(d1), np.linalg.norm(d2)
    G = np.stack([d1, d2]).astype(float) @ np.stack([d1, d2]).T.astype(float)
    if np.sqrt(max(np.linalg.det(G), 0)) < 0.15 * n1 * n2 or n2 == 0:
        if whole:
            d2 = np.zeros_like(d1)
            i = int(np.argmax(np.abs(d1)))
            d2[(i + 1) % len(d1)], d2[i] = d1[i], -d1[(i + 1) % len(d1)]
        else:
            d2 = d2 - d1 * (d1 @ d2) / (d1 @ d1)
            if np.linalg.norm(d2) < 0.3 * unit:
                d2 = np.eye(len(d1))[int(np.argmin(np.abs(d1)))]
                d2 = (d2 - d1 * (d1 @ d2) / (d1 @ d1)) * unit
            d2 = np.round(d2 / unit, 3) * unit
    return d1, d2


class Dom:
    """Map under test plus the analytic facts about the domain."""

    def __init__(self, c, api):
        k = self.kind = c["kind"]
        f = lambda v: A(v)
        self.d = 2
        one = lone(c)
        if k == "hypercube":
            lb, ub = np.array(c["lb"]), np.array(c["lb"]) + np.array(c["w"])
            self.d = len(lb)
            self.f = D.Hypercube(tuple(lb.tolist()), tuple(ub.tolist())).transform if api == "class" else (
                lambda x: D.transform_hypercube(x, f(lb), f(ub)))
            self.measure, self.mean = np.prod(1.0 * (ub - lb)), (lb + ub) / 2
            self.cov = np.diag((ub - lb) ** 2 / 12)
            self.inside = lambda P, t: ((P >= lb - t) & (P <= ub + t)).all(-1)
            self.scale = np.abs(np.stack([lb, ub])).max() + one
        elif k in ("parallelogram", "triangle"):
            a, (d1, d2) = np.array(c["a"]), tidy(c)
            b, cc = a + d1, a + d2
            G = np.stack([d1, d2]).astype(float) @ np.stack([d1, d2]).T.astype(float)
            area = np.sqrt(np.linalg.det(G))
            self.scale = np.abs(np.stack([a, b, cc])).max() * 2 + one
            B = np.stack([d1, d2], -1).astype(float)
            pinv = np.linalg.pinv(B)
            self.cond = np.linalg.norm(pinv)

            def bary(P):
                u = (P - a) @ pinv.T
                off = np.abs(a + u @ B.T - P).max(-1)
                return u, off
            self.corners = (a, b, cc)
            if k == "parallelogram":
                p = D.Parallelogram(tuple(a.tolist()), tuple(b.tolist()), tuple(cc.tolist()))
                self.f, self.dom = p.transform, p
                self.measure, self.mean = area, a + (d1 + d2) / 2
                self.cov = (np.outer(d1, d1) + np.outer(d2, d2)) / 12
                self.inside = lambda P, t: (lambda u, off: (off <= t) & (u >= -t * self.cond).all(-1) & (u <= 1 + t * self.cond).all(-1))(*bary(P))
            else:
                self.f = lambda x: D.transform_triangle(x, f(a), f(b), f(cc))
                self.measure, self.mean = area / 2, (a + b + cc) / 3
                V = np.stack([a, b, cc]) - self.mean
                self.cov = V.T @ V / 12
                self.inside = lambda P, t: (lambda u, off: (off <= t) & (u >= -t * self.cond).all(-1) & (u.sum(-1) <= 1 + 2 * t * self.cond))(*bary(P))
        else:
            o = np.array(c["o"])
            n = self.d = len(o)
            if k == "annulus":
                r1, r2 = c["r1"], c["r1"] + c["dr"]
                self.f = D.Annulus(r1, r2, tuple(o.tolist())).transform if api == "class" else (
                    lambda x: D.transform_annulus(x, f(r1), f(r2), f(o)))
            else:
                r1, r2 = 0.0, c["r"]
                cls, fn = (D.Disk, D.transform_circle) if k == "disk" else (D.Sphere, D.transform_sphere)
                self.f = cls(r2, tuple(o.tolist())).transform if api == "class" else (lambda x: fn(x, f(r2), f(o)))
            if n == 2:
                self.measure, q = np.pi * (1.0 * r2**2 - r1**2), (1.0 * r1**2 + r2**2) / 4
            else:
                self.measure, q = 4 / 3 * np.pi * r2**3, r2**2 / 5
            self.mean, self.cov = o, q * np.eye(n)
            self.inside = lambda P, t: (lambda rr: (rr <= r2 + t) & (rr >= r1 - t))(np.linalg.norm(P - o, axis=-1))
            self.scale = np.abs(o).max() + r2 + one

    def tol(self):
        return TOL * self.scale


point_cases = st.fixed_dictionaries(dict(dom=domains, api=gen.pick("class", "fun"), shape=gen.pick([7], [2, 3], [], [1], [3, 1, 2], [2], [33], [1, 2, 1, 3]),
                                         seed=gen.seeds, jit=st.booleans(), ends=st.booleans()))


def chk_points(c, ctx):
    m = Dom(c["dom"], c["api"])
    r = gen.rng(c["seed"])
    x = r.random((*c["shape"], m.d))
    if c["ends"]:
        x = np.where(r.random(x.shape) < 0.3, r.choice([0.0, 1.0], x.shape), x)
    f = jax.jit(m.f) if c["jit"] else m.f
    P = ctx.finite(f(A(x)), "mapped points")
    ctx.shape(P, (*c["shape"], len(m.mean)), "mapped points")
    ok = m.inside(P.astype(float), m.tol())
    ctx.count(ok.size)
    ctx.label(m.kind, c["api"], f"batch{len(c['shape'])}", "ends" if c["ends"] else "inner", f"size-{c['dom'].get('mag', 1.0)}")
    if not ok.all():
        i = tuple(np.argwhere(~ok)[0]) if ok.ndim else ()
        ctx.fail("sample mapped outside its domain", sample=x[i], point=P[i], domain=str(c["dom"]))
    # any batch shape gives the same points as one by one
    flat = x.reshape(-1, m.d)
    one = np.stack([np.asarray(m.f(A(v))) for v in flat[:6]])
    ctx.close(P.reshape(-1, len(m.mean))[:6], one, TOL, "batched and single mapping differ", scale=m.scale)
    # periodic above one
    y = np.clip(r.random((5, m.d)), 0.02, 0.98)
    k = r.integers(0, 4, (5, m.d))
    ctx.close(m.f(A(y + k)), np.asarray(m.f(A(y))), TOL * 50, "samples above one are not wrapped", scale=m.scale, sample=y + k)


uniform_cases = st.fixed_dictionaries(dict(dom=domains, api=gen.pick("class", "fun"), seed=gen.seeds))


def grid(n, d):
    g = (np.arange(n) + 0.5) / n
    return np.stack(np.meshgrid(*[g] * d, indexing="ij"), -1).reshape(-1, d)


def chk_uniform(c, ctx):
    m = Dom(c["dom"], c["api"])
    r = gen.rng(c["seed"])
    # the volume element is the same everywhere
    x = r.uniform(0.03, 0.97, (24, m.d))
    if m.d == 2:
        x = x[np.abs(x.sum(-1) - 1) > 0.03][:16]
        x = np.concatenate([x, np.full((16 - len(x), 2), 0.3)])
    J = np.asarray(jax.jit(jax.vmap(jax.jacfwd(m.f)))(A(x))).astype(float)
    el = np.sqrt(np.abs(np.linalg.det(np.swapaxes(J, -1, -2) @ J)))
    ctx.finite(el, "volume element")
    ref = np.median(el)
    ctx.close(el, np.full(el.shape, ref), 1e-6 if X64 else 5e-3, "volume element is not constant", scale=max(ref, 1e-30), domain=str(c["dom"]))
    mult = ref / m.measure
    ctx.true(abs(mult - round(mult)) < (1e-6 if X64 else 1e-2) * mult and round(mult) >= 1,
             "volume element is not a multiple of the measure", element=ref, measure=m.measure)
    # moments of a mapped grid: the whole domain is covered evenly
    ctx.label(m.kind, f"dim{m.d}", f"size-{c['dom'].get('mag', 1.0)}")
    if m.d > 4:
        return
    n = {1: 400, 2: 48, 3: 16, 4: 8}[m.d]
    P = np.asarray(m.f(A(grid(n, m.d)))).astype(float)
    ctx.count(len(P))
    sd = np.sqrt(np.trace(m.cov))
    tol = {1: 1e-3, 2: 2e-2, 3: 2e-2, 4: 3e-2}[m.d]
    ctx.close(P.mean(0), m.mean, tol, "mean of the mapped grid", scale=sd, domain=str(c["dom"]))
    Z = P - m.mean
    ctx.close(Z.T @ Z / len(Z), m.cov, 2 * tol, "covariance of the mapped grid", scale=sd**2, domain=str(c["dom"]))


GROUPS = [
    Group("points", point_cases, chk_points, 500, 10000),
    Group("uniform", uniform_cases, chk_uniform, 220, 4000),
]
