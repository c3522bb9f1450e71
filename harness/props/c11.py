"""C11: quadrature rules are exact to their degree on any tensor grid."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import gen
from core import Group, X64
from ev import A
from magpi.integrate import gauss, integrate, midpoint, simpson, trap

TOL = 2e-11 if X64 else 2e-4
GAUSS = {n: gauss(n) for n in [*range(1, 8), 9, 12, 20]}
METHODS = ["midpoint", "trap", "simpson", "gauss1", "gauss2", "gauss3", "gauss5", "gauss9"]


def rule(name):
    return GAUSS[int(name[5:])] if name.startswith("gauss") else dict(midpoint=midpoint, trap=trap, simpson=simpson)[name]


def degree(name):
    return 2 * int(name[5:]) - 1 if name.startswith("gauss") else dict(midpoint=1, trap=1, simpson=3)[name]


part = st.tuples(gen.num(-2, 2, 2), st.lists(gen.num(0.05, 1.2, 2), min_size=1, max_size=4), st.booleans())
# one dimension: also many cells, far from the origin, long and short
part1 = st.tuples(part, gen.pick("", "", "", "many", "far", "long", "short"), gen.seeds).map(lambda t: change(*t))


def change(p, how, seed):
    a, h, rev = p
    if how == "many":
        h = [round(float(v), 3) for v in gen.rng(seed).uniform(0.01, 0.1, 5 + seed % 60)]
    elif how == "far":
        a = a + (30.0 if X64 else 5.0) * (1 if seed % 2 else -1)
    elif how in ("long", "short"):
        h = [v * (20.0 if how == "long" else 1e-3) for v in h]
    return [a, h, rev]


def nodes_of(p):
    x = np.concatenate([[p[0]], p[0] + np.cumsum(p[1])])
    return x[::-1].copy() if p[2] else x


OUT = ["scalar", "one", "vec", "mat", "tree", "const", "tree_const"]
exact_cases = gen.pick(1, 2, 3, 1, 2, 3, 4).flatmap(lambda d: st.fixed_dictionaries(dict(
    method=gen.pick(*METHODS), whole=gen.pick(False, False, False, True),
    parts=st.lists(part1 if d == 1 else part, min_size=d, max_size=d) if d < 4 else st.lists(part.map(lambda p: [p[0], p[1][:1], p[2]]), min_size=d, max_size=d), out=gen.pick(*OUT), form=gen.pick("list", "tuple", "array"),
    args=gen.pick("closure", "pos", "kw", "both"), seed=gen.seeds, jit=gen.pick(True, False, False))))


def mono(x, d, deg):
    """All monomials of degree <= deg in every variable, as a tensor."""
    if d == 1:
        return x ** jnp.arange(deg + 1)
    xs = [x[i] ** jnp.arange(deg + 1) for i in range(d)]
    if d == 2:
        return xs[0][:, None] * xs[1]
    if d == 3:
        return xs[0][:, None, None] * xs[1][:, None] * xs[2]
    return jnp.einsum("a,b,c,d->abcd", *xs)


def mono_int(ends, deg):
    k = np.arange(deg + 1)
    v = [(b ** (k + 1.0) - a ** (k + 1.0)) / (k + 1) for a, b in ends]
    out = v[0]
    for w in v[1:]:
        out = np.multiply.outer(out, w)
    return out


def chk_exact(c, ctx):
    d, deg = len(c["parts"]), degree(c["method"])
    deg = min(deg, (5 if X64 else 3) if d < 4 else 2)
    P = [nodes_of(p) for p in c["parts"]]
    if c.get("whole"):  # integer nodes
        P = [np.round(p[0]) + np.concatenate([[0], np.cumsum(np.sign(np.diff(p)) * np.maximum(1, np.round(np.abs(np.diff(p)))))]) for p in P]
    r = gen.rng(c["seed"])
    shape = {"scalar": (), "one": (1,), "vec": (3,), "mat": (2, 3), "tree": (2,), "const": (), "tree_const": (2,)}[c["out"]]
    C = r.integers(-9, 10, (*shape, *([deg + 1] * d))) / 4
    S = r.integers(1, 9) / 4
    out = c["out"]

    def poly(x, C):
        return jnp.tensordot(C, mono(x, d, deg), d)

    def f0(x, C, s):
        if out == "const":
            return s
        if out == "tree_const":
            return dict(a=poly(x, C), b=jnp.array(1.0), c=(poly(x, C)[0], jnp.ones((2, 2)) * s))
        if out == "tree":
            return dict(a=poly(x, C), b=[poly(x, C)[0] * s, poly(x, C)[1]])
        return poly(x, C) * s

    Cj, sj = A(C), A(S)
    if c["args"] == "closure":
        f, args, kw = (lambda x: f0(x, Cj, sj)), (), {}
    elif c["args"] == "pos":
        f, args, kw = f0, (Cj, sj), {}
    elif c["args"] == "kw":
        f, args, kw = (lambda x, *, C, s: f0(x, C, s)), (), dict(C=Cj, s=sj)
    else:
        f, args, kw = (lambda x, C, *, s: f0(x, C, s)), (Cj,), dict(s=sj)
    form = c["form"]
    if form == "array" and len({len(p) for p in P}) > 1:
        n = min(len(p) for p in P)
        P = [p[:n] for p in P]
    m = rule(c["method"])

    def run(P, args, kw):
        if form == "array":
            dom = P[0] if d == 1 else jnp.stack(P)
        else:
            dom = tuple(P) if form == "tuple" else list(P)
        return integrate(f, dom, *args, method=m, **kw)

    if c["jit"]:
        run = jax.jit(run)
    if c.get("whole"):
        ctx.label("integer_nodes")
    got = run([jnp.asarray(p.astype(int)) if c.get("whole") else A(p) for p in P], args, kw)
    ends = [(p[0], p[-1]) for p in P]
    I = mono_int(ends, deg)
    B = np.abs(mono_int([(0, max(np.abs(e).max(), 1.0)) for e in ends], deg)) * 2 ** d
    poly_e, vol = np.tensordot(C, I, d), I.flat[0]
    bound = float(np.abs(C).reshape(-1, *I.shape).max(0).ravel() @ B.ravel()) * (1 + S) + 1
    if out == "const":
        exp = vol * S
    elif out == "tree_const":
        exp = dict(a=poly_e, b=vol, c=(poly_e[0], np.ones((2, 2)) * S * vol))
    elif out == "tree":
        exp = dict(a=poly_e, b=[poly_e[0] * S, poly_e[1]])
    else:
        exp = poly_e * S
    tg, te = jax.tree_util.tree_structure(got), jax.tree_util.tree_structure(exp)
    ctx.true(tg == te, "structure of the integral differs from the integrand's", got=str(tg), expected=str(te))
    for g, e in zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(exp)):
        ctx.close(g, np.asarray(e), TOL, f"integral ({c['method']}, d={d})", scale=bound)
    ctx.count(np.prod([len(p) for p in P]))
    ctx.label(c["method"], f"dim{d}", out, form, "reversed" if any(p[2] for p in c["parts"]) else "increasing")
    ctx.trivial(not np.any(C))


# one-dimensional rules against the cellwise error bound of a degree-exact rule on smooth functions
err_cases = st.fixed_dictionaries(dict(method=gen.pick(*METHODS, "gauss12", "gauss20"), part=part1, w=gen.num(0.3, 2.5, 2), ph=gen.num(-3, 3, 2)))


def chk_error(c, ctx):
    from math import factorial
    x = nodes_of(c["part"])
    w, ph, m = c["w"], c["ph"], c["method"]
    got = float(integrate(lambda t: jnp.sin(w * t + ph), A(x), method=rule(m)))
    exact = (np.cos(w * x[0] + ph) - np.cos(w * x[-1] + ph)) / w
    h = np.abs(np.diff(x))
    if m.startswith("gauss"):
        n = int(m[5:])
        cst = factorial(n) ** 4 / ((2 * n + 1) * factorial(2 * n) ** 3)
        b = cst * w ** (2 * n) * (h ** (2 * n + 1)).sum()
    else:
        k, cst = dict(midpoint=(3, 1 / 24), trap=(3, 1 / 12), simpson=(5, 1 / 2880))[m]
        b = cst * w ** (k - 1) * (h ** k).sum()
    ctx.count(len(x))
    ctx.label(m)
    ctx.true(abs(got - exact) <= b * (1 + 1e-6) + (1e-12 if X64 else 2e-5) * (1 + h.sum()), "error exceeds the bound of the composite rule", method=m,
             got=got, exact=exact, bound=b)
    W, N = rule(m)(A(x))
    W, N = ctx.finite(W, "weights"), ctx.finite(N, "nodes")
    ctx.true(W.shape == N.shape and W.ndim == 1, "weights and nodes do not pair up", w=W.shape, n=N.shape)
    ctx.close(W.sum(), x[-1] - x[0], TOL, "weights do not sum to the length", scale=1 + h.sum())
    lo, hi = min(x[0], x[-1]), max(x[0], x[-1])
    t = TOL * (1 + abs(lo) + abs(hi))
    ctx.true((N >= lo - t).all() and (N <= hi + t).all(), "node outside the domain", nodes=N)
    ctx.true((W * np.sign(x[-1] - x[0]) >= -t).all(), "weight with the wrong sign", weights=W)


# differentiability in parameters and nodes of the partition
grad_cases = st.integers(1, 2).flatmap(lambda d: st.fixed_dictionaries(dict(
    method=gen.pick("midpoint", "trap", "simpson", "gauss2", "gauss3"), parts=st.lists(part, min_size=d, max_size=d), seed=gen.seeds,
    ad=gen.pick("fwd", "rev"), jit=st.booleans())))


def chk_grad(c, ctx):
    d, deg = len(c["parts"]), degree(c["method"])
    P = [nodes_of(p) for p in c["parts"]]
    r = gen.rng(c["seed"])
    C = r.integers(-9, 10, [deg + 1] * d) / 4
    m = rule(c["method"])

    def F(P, C):
        return integrate(lambda x, C: jnp.tensordot(C, mono(x, d, deg), d), list(P) if d > 1 else P[0], C, method=m)

    J = (jax.jacfwd if c["ad"] == "fwd" else jax.jacrev)(F, argnums=(0, 1))
    if c["jit"]:
        J = jax.jit(J)
    gP, gC = J([A(p) for p in P], A(C))
    ends = [(p[0], p[-1]) for p in P]
    scale = float(np.abs(C).ravel() @ np.abs(mono_int([(0, max(np.abs(e).max(), 1.0)) for e in ends], deg)).ravel() * 2 ** d * (deg + 1)) + 1
    ctx.close(gC, mono_int(ends, deg), TOL * 10, "derivative by the parameters", scale=np.abs(mono_int([(0, max(np.abs(e).max(), 1.0)) for e in ends], deg)) * 2 ** d + 1)
    for i in range(d):
        e = np.zeros(len(P[i]))
        for pos, sign in ((0, -1), (-1, 1)):
            x = P[i][pos]
            powers = x ** np.arange(deg + 1.0)
            if d == 1:
                e[pos] += sign * (C @ powers)
            else:
                o = mono_int([ends[1 - i]], deg)
                e[pos] += sign * (powers @ C @ o if i == 0 else o @ C @ powers)
        ctx.close(gP[i], e, TOL * 100, "derivative by the partition points", scale=scale * 10)
    ctx.label(c["method"], c["ad"], f"dim{d}")
    ctx.count(1)


GROUPS = [
    Group("exact", exact_cases, chk_exact, 400, 12000),
    Group("error", err_cases, chk_error, 400, 6000),
    Group("grad", grad_cases, chk_grad, 60, 2000, modes=("x64",)),
]
