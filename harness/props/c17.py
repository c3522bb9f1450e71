"""C17: divergence, curl and Laplacian match their definitions."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import gen
from core import Group, X64
from ev import A
from magpi import calc
from magpi.model import mlp
from props import nets

TOL = 1e-9 if X64 else 2e-3
K = 3


class Field:
    """Sum of plane waves plus a quadratic form: components have closed-form derivatives. Shape (*stack, m)."""

    def __init__(self, seed, d, shape):
        r = gen.rng(seed, d, len(shape))
        self.d, self.shape = d, tuple(shape)
        n = int(np.prod(shape)) if shape else 1
        self.W, self.p = np.round(r.uniform(-1.2, 1.2, (K, d)), 2), np.round(r.uniform(-2, 2, K), 2)
        self.C = np.round(r.uniform(-1, 1, (n, K)), 2)
        Q = np.round(r.uniform(-1, 1, (n, d, d)), 2)
        self.Q = (Q + Q.swapaxes(1, 2)) / 2

    def __call__(self, x):
        x = jnp.atleast_1d(x)
        v = jnp.sin(A(self.W) @ x + A(self.p))
        return (A(self.C) @ v + 0.5 * jnp.einsum("nij,i,j->n", A(self.Q), x, x)).reshape(self.shape)

    def value(self, x):
        return (self.C @ np.sin(self.W @ x + self.p) + 0.5 * np.einsum("nij,i,j->n", self.Q, x, x)).reshape(self.shape)

    def jac(self, x):
        return ((self.C * np.cos(self.W @ x + self.p)) @ self.W + self.Q @ x).reshape(*self.shape, self.d)

    def lap(self, x):
        return (-(self.C * np.sin(self.W @ x + self.p)) @ (self.W**2).sum(1) + np.trace(self.Q, axis1=1, axis2=2)).reshape(self.shape)


def np_curl(J):
    if J.shape[-1] == 2:
        return J[..., 1, 0] - J[..., 0, 1]
    return np.stack([J[..., 2, 1] - J[..., 1, 2], J[..., 0, 2] - J[..., 2, 0], J[..., 1, 0] - J[..., 0, 1]], -1)


def np_div(J):
    return np.trace(J, axis1=-2, axis2=-1)


def compare(ctx, got, exp, what):
    tg, te = jax.tree_util.tree_structure(got), jax.tree_util.tree_structure(exp)
    ctx.true(tg == te, f"{what}: structure differs", got=str(tg), expected=str(te))
    for a, b in zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(exp)):
        ctx.close(a, np.asarray(b), TOL, what, scale=5.0)


cases = st.fixed_dictionaries(dict(op=gen.pick("div", "vdiv", "curl", "lap"), d=gen.pick(1, 2, 3, 4, 5), out=gen.pick("plain", "stack", "stack1", "tree", "tree_stack", "scalar", "stack2"),
                                   args=gen.pick("none", "pos", "kw", "both", "many", "static", "argnum1", "argnum2"), seed=gen.seeds, exec=gen.pick("eager", "jit", "vmap"),
                                   scalar_x=st.booleans()))


def chk(c, ctx):
    op, d, out, args = c["op"], c["d"], c["out"], c["args"]
    if op == "curl":
        d = 2 + d % 2
    if op == "lap" and c["scalar_x"]:
        d = 1
    comp = (d,) if op != "lap" else ((), (2,), (3,), (2, 2), (7,))[c["seed"] % 5]
    if out == "scalar":
        if op != "lap":
            out = "plain"
        else:
            comp = ()
    sx = op == "lap" and c["scalar_x"]
    if out == "stack2" and op in ("div", "vdiv"):
        out = "stack"
    shapes = {"stack2": [(2, 3, *comp)], "plain": [comp], "scalar": [comp], "stack": [(4, *comp)], "stack1": [(1, *comp)], "tree": [comp, comp], "tree_stack": [(2, *comp), comp]}[out]
    F = [Field(c["seed"] + i, d, s) for i, s in enumerate(shapes)]
    pack = (lambda v: v[0]) if len(F) == 1 else (lambda v: dict(a=v[0], b=(v[1],)))
    r = gen.rng(c["seed"], 9)
    x = np.round(r.uniform(-1.5, 1.5, d), 3)
    s, t = 1.5, np.round(r.uniform(-1, 1), 2)
    if args in ("argnum1", "argnum2") and op not in ("div", "vdiv"):
        args = "both"
    raw = lambda x, s, t: pack([s * f(x) + t for f in F])
    kw, post, okw = {}, [], {}
    pre = []
    if args == "none":
        f = lambda x: raw(x, s, t)
    elif args == "pos":
        f, post = (lambda x, s, t: raw(x, s, t)), [A(s), A(t)]
    elif args == "kw":
        f, kw = (lambda x, *, s, t: raw(x, s, t)), dict(s=A(s), t=A(t))
    elif args == "many":
        f, post, kw = (lambda x, a, b, c, e, *, s, t: raw(x, a * b * c * s, e + t)), [A(0.5), A(2.0), A(1.0), A(0.25)], dict(s=A(s), t=A(t - 0.25))
    elif args == "both":
        f, post, kw = (lambda x, s, t=0.0: raw(x, s, t)), [A(s)], dict(t=A(t))
    elif args == "static":  # arguments that are not arrays
        f, post, kw = (lambda x, h, mode: raw(x, h(1.0), t) if mode == "on" else raw(x, 0 * s, t)), [lambda z: z * s], dict(mode="on")
    elif args == "argnum1":
        f, pre, okw = (lambda s, x, t: raw(x, s, t)), [A(s)], dict(argnums=1)
        post = [A(t)]
    else:
        f, pre, okw = (lambda s, t, x: raw(x, s, t)), [A(s), A(t)], dict(argnums=2)
    o = dict(div=calc.divergence, vdiv=calc.value_and_divergence, curl=calc.curl, lap=calc.laplace)[op](f, **okw)
    J = [s * g.jac(x) for g in F]
    if op == "lap":
        exp = pack([s * g.lap(x) for g in F])
    elif op == "curl":
        exp = pack([np_curl(j) for j in J])
    else:
        exp = pack([np_div(j) for j in J])
    call = lambda z: o(*pre, z, *post, **kw)
    xj = A(x[0]) if sx else A(x)
    if c["exec"] == "eager":
        got = call(xj)
    elif c["exec"] == "jit":
        got = jax.jit(call)(xj)
    else:
        got = jax.tree_util.tree_map(lambda v: v[1], jax.vmap(call)(jnp.stack([xj + 1, xj])))
    if op == "vdiv":
        val, got = got
        compare(ctx, val, pack([s * g.value(x) + t for g in F]), "value next to the divergence")
    compare(ctx, got, exp, f"{op} in {d}d")
    ctx.label(op, f"d{d}", out, "args_" + args, c["exec"], "scalar_x" if sx else "vector_x")
    ctx.count(1)


err_cases = st.fixed_dictionaries(dict(d=gen.pick(1, 4, 5), seed=gen.seeds, kind=gen.pick("input", "output", "tree_output"), dd=gen.pick(2, 3)))


def chk_reject(c, ctx):
    if c["kind"] == "input":
        d, m = c["d"], [(c["d"],)]
    else:
        d = c["dd"]
        bad = (5 - d,) if c["seed"] % 2 else (d + 2,)
        m = [bad] if c["kind"] == "output" else [(d,), bad]
    F = [Field(c["seed"] + i, d, s) for i, s in enumerate(m)]
    f = (lambda x: F[0](x)) if len(F) == 1 else (lambda x: [g(x) for g in F])
    try:
        v = calc.curl(f)(A(np.linspace(0.1, 1, d)))
    except Exception:
        pass
    else:
        ctx.fail("curl of other dimensions was accepted", d=d, out=str(m), got=str(v))
    ctx.label(c["kind"])
    ctx.count(1)


net_cases = st.fixed_dictionaries(dict(op=gen.pick("div", "curl", "lap", "vdiv"), d=gen.pick(2, 3), hidden=gen.pick([4], [3, 4]), seed=gen.seeds, jit=gen.pick(False, False, True)))


def chk_net(c, ctx):
    d, op = c["d"], c["op"]
    out = d if op != "lap" else 1 + c["seed"] % 2
    model, params = mlp(jax.random.PRNGKey(c["seed"] % 2**31), [d, *c["hidden"], out])
    x = np.round(gen.rng(c["seed"], 4).uniform(-1, 1, d), 3)
    o = dict(div=calc.divergence, vdiv=calc.value_and_divergence, curl=calc.curl, lap=calc.laplace)[op](model)
    got = (jax.jit(o) if c["jit"] else o)(A(x), params)
    E = np.eye(d)
    if op == "lap":
        e = sum(nets.jets(params, x, E[i], E[i])[2] for i in range(d))
        e = e[0] if out == 1 else e
    else:
        J = np.stack([nets.jets(params, x, E[i])[1] for i in range(d)], -1)
        e = np_curl(J) if op == "curl" else np_div(J)
    if op == "vdiv":
        ctx.close(got[0], nets.jets(params, x, E[0])[0], TOL, "network value")
        got = got[1]
    ctx.close(got, e, TOL, f"{op} of a network", scale=5.0)
    ctx.label(op, f"d{d}")
    ctx.count(1)


id_cases = st.fixed_dictionaries(dict(which=gen.pick("div_curl", "curl_grad", "div_grad", "curl_curl", "lap_vec"), d=gen.pick(2, 3), seed=gen.seeds, hidden=gen.pick(3, 5)))


def chk_id(c, ctx):
    """Vector calculus identities of composed operators on random tanh models."""
    r = gen.rng(c["seed"], 1)
    d, w = c["d"], c["which"]
    if w in ("div_curl", "curl_curl"):
        d = 3
    out = d if w in ("div_curl", "curl_curl", "lap_vec") else 1
    W, b, V = A(r.normal(size=(5, d)) * 0.7), A(r.normal(size=5)), A(r.normal(size=(out, 5)))
    f = lambda x: (V @ jnp.tanh(W @ x + b)) if out > 1 else (V @ jnp.tanh(W @ x + b))[0]
    x = A(r.uniform(-1, 1, d))
    z = lambda a, e, what: ctx.close(a, np.asarray(e), TOL * 10, what, scale=20.0)
    if w == "div_curl":
        z(jax.jit(calc.divergence(calc.curl(f)))(x), 0.0, "div curl")
    elif w == "curl_grad":
        z(jax.jit(calc.curl(jax.grad(f)))(x), np.zeros(3) if d == 3 else 0.0, "curl grad")
    elif w == "div_grad":
        z(jax.jit(calc.divergence(jax.grad(f)))(x), jax.jit(calc.laplace(f))(x), "div grad = laplace")
    elif w == "curl_curl":
        g = jax.grad(lambda y: calc.divergence(f)(y))
        z(jax.jit(calc.curl(calc.curl(f)))(x), np.asarray(g(x)) - np.asarray(calc.laplace(f)(x)), "curl curl = grad div - laplace")
    else:
        e = [calc.laplace(lambda y, i=i: f(y)[i])(x) for i in range(out)]
        z(calc.laplace(f)(x), np.array([float(v) for v in e]), "laplacian per component")
    ctx.label(w, f"d{d}")
    ctx.count(1)


GROUPS = [
    Group("operator", cases, chk, 440, 16000),
    Group("rejected", err_cases, chk_reject, 120, 1000),
    Group("network", net_cases, chk_net, 120, 2400),
    Group("identity", id_cases, chk_id, 120, 2400),
]
