"""C18: Hessian-vector products and Jacobian helpers agree with the matrices."""
from functools import lru_cache

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st
from jax.flatten_util import ravel_pytree

import gen
from core import Group, X64
from ev import A
from magpi import calc

TOL = 1e-9 if X64 else 2e-3
SHAPES = {
    "vec": lambda r: r.uniform(-1, 1, 4),
    "scalar": lambda r: r.uniform(-1, 1, ()),
    "mat": lambda r: r.uniform(-1, 1, (2, 3)),
    "tuple": lambda r: (r.uniform(-1, 1, 2), r.uniform(-1, 1, ())),
    "long": lambda r: r.uniform(-1, 1, 11),
    "one": lambda r: r.uniform(-1, 1, 1),
    "cube": lambda r: r.uniform(-1, 1, (2, 2, 2)),
    "list": lambda r: [r.uniform(-1, 1, (1, 3)), dict(z=r.uniform(-1, 1, ()), y=(r.uniform(-1, 1, 2),)), r.uniform(-1, 1, (2, 1))],
    "dict": lambda r: dict(b=r.uniform(-1, 1, (2, 2)), a=dict(w=r.uniform(-1, 1, 2), c=r.uniform(-1, 1, ()))),
}


def tree(kind, r):
    return jax.tree_util.tree_map(lambda v: np.round(v, 3), SHAPES[kind](r))


def flat(t):
    return np.concatenate([np.ravel(np.asarray(v, float)) for v in jax.tree_util.tree_leaves(t)])


def J(t):
    return jax.tree_util.tree_map(A, t)


# objective: 1/2 z'Qz + sum sin(Wz + b) * s + (b0.y)^2-coupling with a second argument
def obj(z, Q, W, b, s):
    return 0.5 * z @ Q @ z + s * jnp.sum(jnp.sin(W @ z + b))


def np_obj(z, Q, W, b, s):
    a = W @ z + b
    return 0.5 * z @ Q @ z + s * np.sin(a).sum(), Q @ z + s * W.T @ np.cos(a), Q - s * W.T @ (np.sin(a)[:, None] * W)


VAR = ["hvp", "for", "ror", "vgh"]
base = dict(var=gen.pick(*VAR), tree=gen.pick(*SHAPES), seed=gen.seeds, aux=st.booleans(), vag=st.booleans(), args=gen.pick("none", "pos", "kw", "both"),
            alpha=gen.pick(None, None, 0.0, 0.5, 2.0, -0.25, 1.0, -30.0), mag=gen.pick(1.0, 1.0, 1.0, 0.0, 1e-3, 50.0), two=gen.pick(False, False, True), jit=st.booleans(), traced=st.booleans())


def fns(c, unravel_n):
    """The objective in the flavour of the case: f(p[, q], data...)"""
    aux, vag, args = c["aux"], c["vag"], c["args"]

    def value(p, D):
        z = ravel_pytree(p)[0]
        v = obj(z, D["Q"], D["W"], D["b"], D["s"])
        return (v, dict(n=jnp.sum(z) * 3, t=D["s"])) if aux else v

    def f(p, D):
        return jax.value_and_grad(value, has_aux=aux)(p, D) if vag else value(p, D)
    return f


@lru_cache(None)
def runner(var, kind, aux, vag, args, alpha, two):
    c = dict(aux=aux, vag=vag, args=args)
    f0 = fns(c, None)

    def run(p, v, q, w, D, ta=None):
        """second primal q enters as p + q-coupling: objective of (p, q) is obj(ravel(p) + q0*ravel(p)...)"""
        if two:
            f1 = lambda p, q, D: f0(jax.tree_util.tree_map(lambda z: z * q, p), D)
            if vag:  # gradient by the first argument only
                base_v = lambda p, q, D: fns(dict(c, vag=False), None)(jax.tree_util.tree_map(lambda z: z * q, p), D)
                f1 = jax.value_and_grad(base_v, has_aux=aux)
            prim, tang = (p, q), (v, w)
        else:
            f1 = lambda p, D: f0(p, D)
            prim, tang = (p,), (v,)
        kw, pos = {}, ()
        if args == "none" or var == "hvp":
            f = (lambda *a: f1(*a, D))
        elif args == "pos":
            f, pos = f1, (D,)
        elif args == "kw":
            f, kw = (lambda *a, D: f1(*a, D)), dict(D=D)
        else:
            f = lambda *a, s: f1(*a[:-1], dict(a[-1], s=s))
            pos, kw = (D,), dict(s=D["s"])
        if var == "hvp":
            g = (lambda *a: f(*a)[0]) if aux else f
            return calc.hvp(g, prim, tang)
        opt = {}
        if vag:
            opt["value_and_grad"] = True
        if aux:
            opt["has_aux"] = True
        if var == "for":
            if alpha is not None:
                opt["alpha"] = alpha if ta is None else ta
            return calc.hvp_forward_over_reverse(f, prim, tang, *pos, **opt, **kw)
        if var == "ror":
            return calc.hvp_reverse_over_reverse(f, prim, tang, *pos, **opt, **kw)
        out = calc.value_grad_hvp(f, p, *pos, **opt, **kw)
        return (out[0], out[1], out[2](v), out[2](jax.tree_util.tree_map(lambda a: 2 * a + 1, v))) + tuple(out[3:])
    return run, jax.jit(run)


def same_structure(ctx, got, like, what):
    tg, te = jax.tree_util.tree_structure(got), jax.tree_util.tree_structure(like)
    ctx.true(tg == te, f"{what}: structure differs from the parameters'", got=str(tg), expected=str(te))
    for a, b in zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(like)):
        ctx.shape(a, np.shape(b), what)


def chk_hvp(c, ctx):
    r = gen.rng(c["seed"])
    p, v = tree(c["tree"], r), tree(c["tree"], r)
    mag = c["mag"]  # length of the vector the Hessian is applied to
    v = jax.tree_util.tree_map(lambda z: np.round(z * mag, 6), v)
    n = len(flat(p))
    Q = np.round(r.uniform(-1, 1, (n, n)), 2)
    D = dict(Q=(Q + Q.T) / 2, W=np.round(r.uniform(-1, 1, (3, n)), 2), b=np.round(r.uniform(-1, 1, 3), 2), s=np.round(r.uniform(0.2, 1.5), 2))
    var, vag, two = c["var"], c["vag"], c["two"]
    if var == "hvp":
        vag = False
    if var in ("ror", "vgh"):
        two = False
    alpha = c["alpha"] if var == "for" else None
    q, w = np.round(r.uniform(0.5, 1.5), 2), np.round(r.uniform(-1, 1), 2)
    run, jrun = runner(var, c["tree"], c["aux"], vag, c["args"], alpha, two)
    ta = (A(alpha),) if c.get("traced") and alpha is not None else ()  # the damping factor as an array
    got = (jrun if c["jit"] else run)(J(p), J(v), A(q), A(w), J(D), *ta)
    z, vv = flat(p), flat(v)
    if two:
        # phi(p, q) = obj(q p): grad_p = q g(qp); derivative along (v, w): q^2 H v + w (g + q H p)
        _, g, H = np_obj(q * z, **D)
        exp = q * q * H @ vv + w * (g + q * H @ z)
    else:
        val, g, H = np_obj(z, **D)
        exp = H @ vv
    if alpha is not None:
        exp = exp + alpha * vv
    if var == "vgh":
        n_out = 5 if c["aux"] else 4
        ctx.true(len(got) == n_out, "wrong number of results", got=len(got), expected=n_out)
        ctx.close(got[0], val, TOL, "value")
        same_structure(ctx, got[1], p, "gradient")
        ctx.close(flat(got[1]), g, TOL, "gradient", scale=5.0)
        same_structure(ctx, got[3], p, "second product")
        ctx.close(flat(got[3]), H @ (2 * vv + 1), TOL, "second product of the same linearization", scale=10.0 + 10 * n * mag)
        if c["aux"]:
            aux = got[4]
            ctx.true(set(aux) == {"n", "t"}, "auxiliary output lost", got=str(aux))
            ctx.close(aux["n"], z.sum() * 3, TOL, "auxiliary output")
            ctx.close(aux["t"], D["s"], TOL, "auxiliary output")
        got = got[2]
    same_structure(ctx, got, p, "product")
    ctx.close(flat(got), exp, TOL, f"Hessian-vector product ({var})", scale=10.0 + 10 * n * mag)
    ctx.label(f"length{mag:g}")
    ctx.label(var, c["tree"], "aux" if c["aux"] else "noaux", "value_and_grad" if vag else "value", c["args"], f"alpha{alpha}" + ("t" if ta else ""), "two" if two else "one")
    ctx.count(1)


# vector valued functions: hvp is the second derivative of every output
def chk_hvp_vec(c, ctx):
    r = gen.rng(c["seed"])
    n, m = c["n"], c["m"]
    W, b, C = r.uniform(-1, 1, (3, n)), r.uniform(-1, 1, 3), r.uniform(-1, 1, (m, 3))
    x, v = np.round(r.uniform(-1, 1, n), 3), np.round(r.uniform(-1, 1, n), 3)
    got = calc.hvp(lambda x: A(C) @ jnp.sin(A(W) @ x + A(b)), [A(x)], [A(v)])
    e = np.einsum("mk,k,ki->mi", C, -np.sin(W @ x + b) * (W @ v), W)
    ctx.close(got, e, TOL, "second derivative of a vector valued function", scale=5.0)
    diag = calc.hessian_diag(lambda x: A(C) @ jnp.sin(A(W) @ x + A(b)), A(x))
    ctx.close(diag, np.einsum("mk,k,ki->im", C, -np.sin(W @ x + b), W**2), TOL, "Hessian diagonal", scale=5.0)
    ctx.label(f"{m}x{n}")
    ctx.count(1)


# --- value and Jacobian
jac_cases = st.fixed_dictionaries(dict(mode=gen.pick("fwd", "rev"), argnums=gen.pick(None, 0, 1, 2, [0], [1], [0, 2], [2, 0], [0, 1, 2], [2, 1, 0], [1, 2, 0]), aux=st.booleans(),
                                       out=gen.pick("vec", "scalar", "mat", "tree"), kw=st.booleans(), seed=gen.seeds, jit=st.booleans(), trees=st.booleans()))


def chk_jac(c, ctx):
    r = gen.rng(c["seed"])
    sizes = [3, 2, 1]
    X = [np.round(r.uniform(-1, 1, n), 3) for n in sizes]
    m = {"vec": 2, "scalar": 1, "mat": 4, "tree": 3}[c["out"]]
    M = [np.round(r.uniform(-1, 1, (m, n)), 2) for n in sizes]
    s = 1.5
    pack = {"vec": lambda v: v, "scalar": lambda v: v[0], "mat": lambda v: v.reshape(2, 2, *v.shape[1:]), "tree": lambda v: dict(a=v[0], b=[v[1:]])}[c["out"]]
    third_tree = c["trees"]  # the third argument is a pytree

    def f0(x, y, z, s):
        zz = z["k"] if third_tree else z
        v = jnp.sin(A(M[0]) @ x + A(M[1]) @ y) * s + (A(M[2]) @ zz) ** 2
        o = pack(v)
        return (o, dict(n=x[0], m=[y, s * x[1]])) if c["aux"] else o

    f = (lambda x, y, z, *, s: f0(x, y, z, s)) if c["kw"] else (lambda x, y, z: f0(x, y, z, s))
    kw = dict(s=s) if c["kw"] else {}
    args = [A(X[0]), A(X[1]), dict(k=A(X[2])) if third_tree else A(X[2])]
    opt = {}
    an = c["argnums"]
    if an is not None:
        opt["argnums"] = tuple(an) if isinstance(an, list) else an
    if c["aux"]:
        opt["has_aux"] = True
    h = (calc.value_and_jacfwd if c["mode"] == "fwd" else calc.value_and_jacrev)(f, **opt)
    if c["jit"]:
        h = jax.jit(h)
    y, Jg = h(*args, **kw)
    a = M[0] @ X[0] + M[1] @ X[1]
    val = np.sin(a) * s + (M[2] @ X[2]) ** 2
    full = [s * np.cos(a)[:, None] * M[0], s * np.cos(a)[:, None] * M[1], 2 * (M[2] @ X[2])[:, None] * M[2]]
    if c["aux"]:
        ctx.true(isinstance(y, tuple) and len(y) == 2, "auxiliary output lost", got=str(y))
        y, aux = y
        ctx.true(jax.tree_util.tree_structure(aux) == jax.tree_util.tree_structure(dict(n=0, m=[0, 0])), "auxiliary output changed", got=str(aux))
        ctx.close(aux["n"], X[0][0], TOL, "auxiliary output")
        ctx.close(aux["m"][0], X[1], TOL, "auxiliary output")
        ctx.close(aux["m"][1], s * X[0][1], TOL, "auxiliary output")
    exp = pack(val)
    ctx.true(jax.tree_util.tree_structure(y) == jax.tree_util.tree_structure(exp), "structure of the value", got=str(y))
    for g, e in zip(jax.tree_util.tree_leaves(y), jax.tree_util.tree_leaves(exp)):
        ctx.close(g, e, TOL, "value next to the Jacobian", scale=3.0)
    sel = [0] if an is None else ([an] if isinstance(an, int) else an)
    # expected: pytree of the output whose leaves hold one Jacobian (pytree) per selected argument
    exps = [full[i] for i in sel]
    outs = jax.tree_util.tree_leaves(pack(np.arange(m)))
    got_leaves = jax.tree_util.tree_leaves(Jg)
    ctx.true(len(got_leaves) == len(sel) * len(outs), "wrong number of Jacobian blocks", got=len(got_leaves), expected=len(sel) * len(outs))
    k = 0
    for rows in outs:
        for i, e in zip(sel, exps):
            want = e[np.ravel(rows)].reshape(*np.shape(rows), sizes[i])
            ctx.close(got_leaves[k], want, TOL, "Jacobian", scale=3.0)
            k += 1
    if isinstance(an, list):
        first = Jg if c["out"] != "tree" else Jg["a"]
        ctx.true(isinstance(first, tuple), "several arguments give a tuple of Jacobians", got=type(first).__name__)
    ctx.label(c["mode"], f"argnums{an}", c["out"], "aux" if c["aux"] else "noaux")
    ctx.count(1)


# --- complex (holomorphic) functions and integer arguments
complex_cases = st.fixed_dictionaries(dict(mode=gen.pick("fwd", "rev"), kind=gen.pick("holomorphic", "holomorphic", "int"), argnums=gen.pick(None, 0, 1, [0, 1], [1, 0]),
                                           aux=st.booleans(), n=gen.pick(1, 2, 3), m=gen.pick(1, 2, 4), seed=gen.seeds, jit=st.booleans()))


def chk_complex(c, ctx):
    """f(x, y) = W exp(x) + (V y)^2: complex differentiable, its complex Jacobians are W diag(exp x) and 2 (Vy) V. With allow_int, y may be
    an array of integers, which has no derivative: value and Jacobian by x are still returned."""
    r = gen.rng(c["seed"])
    n, m = c["n"], c["m"]
    cplx = c["kind"] == "holomorphic"
    z = lambda *s: r.uniform(-1, 1, s) + (1j * r.uniform(-1, 1, s) if cplx else 0)
    W, V, x, y = z(m, n), z(m, n), z(n), z(n)
    CT = (np.complex128 if X64 else np.complex64) if cplx else (np.float64 if X64 else np.float32)
    a = lambda v: jnp.asarray(v, dtype=CT)
    opt = dict(holomorphic=True) if cplx else {}
    an, mode = c["argnums"], c["mode"]
    if not cplx:
        y, an, mode, opt = r.integers(-3, 4, n), None if an in (None, 0) else 0, "rev", dict(allow_int=True)
    if an is not None:
        opt["argnums"] = tuple(an) if isinstance(an, list) else an
    if c["aux"]:
        opt["has_aux"] = True

    def f(x, y):
        v = a(W) @ jnp.exp(x) + (a(V) @ y) ** 2
        return (v, dict(t=y[0])) if c["aux"] else v

    h = (calc.value_and_jacfwd if mode == "fwd" else calc.value_and_jacrev)(f, **opt)
    val, Jg = (jax.jit(h) if c["jit"] else h)(a(x), a(y) if cplx else jnp.asarray(y))
    if c["aux"]:
        val, aux = val
        ctx.true(complex(aux["t"]) == complex(a(y)[0]), "auxiliary output changed", got=str(aux))
    ctx.close(val, W @ np.exp(x) + (V @ y) ** 2, TOL, "value", scale=100.0)
    full = [W * np.exp(x), 2 * (V @ y)[:, None] * V]
    sel = [0] if an is None else ([an] if isinstance(an, int) else an)
    got = list(Jg) if isinstance(an, list) else [Jg]
    ctx.true(len(got) == len(sel), "number of Jacobians", got=len(got), expected=len(sel))
    for i, g in zip(sel, got):
        ctx.shape(g, (m, n), "Jacobian")
        ctx.close(g, full[i], TOL, f"Jacobian ({c['kind']})", scale=20.0)
    ctx.label(c["kind"], mode, f"argnums{an}", "aux" if c["aux"] else "noaux")
    ctx.count(1)


GROUPS = [
    Group("hvp", st.fixed_dictionaries(base), chk_hvp, 480, 8000),
    Group("hvp_vec", st.fixed_dictionaries(dict(n=gen.pick(1, 2, 3), m=gen.pick(1, 2), seed=gen.seeds)), chk_hvp_vec, 120, 2000),
    Group("complex", complex_cases, chk_complex, 80, 1500),
    Group("jacobian", jac_cases, chk_jac, 320, 6000),
]
