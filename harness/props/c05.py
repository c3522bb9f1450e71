"""C05: quaternion arithmetic forms a division algebra (expression trees against Hamilton's rules in numpy)."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import gen
import quat
from core import Group, Skip, X64
from ev import A
from magpi.quaternions import Quaternion, quaternion_left_div, quaternion_right_div

comp = st.one_of(gen.num(-3, 3, 2), gen.pick(0.0, 1.0, -1.0))
qs = st.lists(comp, min_size=4, max_size=4)
scal = st.tuples(st.one_of(st.integers(-4, 4), gen.num(-4, 4, 2)), gen.pick("py", "py", "jnp")).map(list)

UN = ["neg", "conj", "recip"]
BIN = ["add", "sub", "mul", "div", "ldiv"]
SC = ["adds", "sadd", "subs", "ssub", "muls", "smul", "divs"]


def trees(depth):
    leaf = st.integers(0, 2).map(lambda i: ["q", i])
    t = leaf
    for _ in range(depth):
        s = t
        t = st.one_of(leaf, st.tuples(gen.pick(*UN), s).map(list), st.tuples(gen.pick(*BIN), s, s).map(list),
                      st.tuples(gen.pick(*BIN), s, s).map(list), st.tuples(gen.pick(*SC), s, scal).map(list))
    return t


def num(s):
    return A(s[0]) if s[1] == "jnp" else s[0]


def lib(t, Q):
    k = t[0]
    if k == "q":
        return Q[t[1]]
    a = lib(t[1], Q)
    if k in UN:
        return {"neg": lambda: -a, "conj": lambda: a.conj(), "recip": lambda: a.reciprocal()}[k]()
    if k in SC:
        s = num(t[2])
        return {"adds": lambda: a + s, "sadd": lambda: s + a, "subs": lambda: a - s, "ssub": lambda: s - a,
                "muls": lambda: a * s, "smul": lambda: s * a, "divs": lambda: a / s}[k]()
    b = lib(t[2], Q)
    return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a / b,
            "ldiv": lambda: quaternion_left_div(a, b)}[k]()


def ref(t, Q):
    """(value, magnitude bound of intermediate terms); a divisor close to zero is outside the domain."""
    k = t[0]
    if k == "q":
        v = np.array(Q[t[1]], float)
        return v, np.linalg.norm(v)
    a, m = ref(t[1], Q)
    if k == "neg":
        return -a, m
    if k == "conj":
        return quat.conj(a), m

    def need(v, mv):
        n = np.linalg.norm(v)
        if n < 0.2 or n < 1e-2 * mv:
            raise Skip()
        return n
    if k == "recip":
        n = need(a, m)
        return quat.inv(a), m / n**2
    if k in SC:
        s = float(t[2][0])
        if k in ("adds", "sadd"):
            return a + s, m + 2 * abs(s)
        if k == "subs":
            return a - s, m + 2 * abs(s)
        if k == "ssub":
            return s - a, m + 2 * abs(s)
        if k == "divs":
            if abs(s) < 0.2:
                raise Skip()
            return a / s, m / abs(s)
        return a * s, m * abs(s)
    b, mb = ref(t[2], Q)
    if k == "add":
        return a + b, m + mb
    if k == "sub":
        return a - b, m + mb
    if k == "mul":
        return quat.mul(a, b), m * mb
    n = need(b, mb)
    v = quat.mul(a, quat.inv(b)) if k == "div" else quat.mul(quat.inv(b), a)
    return v, m * mb / n**2


def Qof(v):
    return Quaternion(A(v[0]), A(v[1:]))


def whole(v):
    """a quaternion with integer components"""
    v = [int(round(x)) for x in v]
    return Quaternion(v[0], tuple(v[1:])) if v[0] % 2 else Quaternion(jnp.asarray(v[0]), jnp.asarray(v[1:]))


def vec(ctx, q, what="quaternion"):
    ctx.true(isinstance(q, Quaternion), what + ": not a quaternion", got=type(q).__name__)
    a, v = ctx.shape(q.real, (), what + ".real"), ctx.shape(q.imag, (3,), what + ".imag")
    return np.concatenate([[a], v]).astype(float)


expr_cases = st.fixed_dictionaries(dict(tree=st.integers(1, 3).flatmap(trees), qs=st.lists(qs, min_size=3, max_size=3),
                                        mode=gen.pick("eager", "eager", "jit"), whole=gen.pick(False, False, False, True)))
TOL = 1e-12 if X64 else 1e-5


def ops(t):
    return [] if t[0] == "q" else [t[0]] + [o for s in t[1:] if isinstance(s, list) and s and isinstance(s[0], str) for o in ops(s)]


def chk_expr(c, ctx):
    qs = c["qs"]
    if c.get("whole"):
        qs = [[float(round(x)) for x in v] for v in qs]
        ctx.label("integers")
    e, m = ref(c["tree"], qs)
    Q = [(whole if c.get("whole") else Qof)(v) for v in qs]
    f = lambda *Q: lib(c["tree"], Q)
    r = (jax.jit(f) if c["mode"] == "jit" else f)(*Q)
    ctx.count(1)
    o = ops(c["tree"])
    ctx.trivial(not o)
    ctx.label(*o, c["mode"])
    ctx.close(vec(ctx, r), e, TOL * 40, "quaternion expression", scale=m + 1e-3, tree=str(c["tree"]))


law_cases = st.fixed_dictionaries(dict(p=qs, q=qs, r=qs, s=scal, mag=gen.pick(1.0, 1.0, 1e-3, 1e3)))


def chk_laws(c, ctx):
    mag = c.get("mag", 1.0)
    p, q, r = (np.array(c[k]) * mag for k in "pqr")
    P, Q, R = Qof(p), Qof(q), Qof(r)
    n = np.linalg.norm
    sc = (1 + n(p)) * (1 + n(q)) * (1 + n(r)) if mag >= 1 else 1.0
    t = TOL * 40
    ctx.close(vec(ctx, (P * Q) * R), vec(ctx, P * (Q * R)), t, "associativity", scale=(n(p) * n(q) * n(r)) + 1e-12 * mag)
    ctx.close(vec(ctx, P * (Q + R)), vec(ctx, P * Q + P * R), t, "left distributivity", scale=n(p) * (n(q) + n(r)) + 1e-12 * mag)
    ctx.close(vec(ctx, (P + Q) * R), vec(ctx, P * R + Q * R), t, "right distributivity", scale=n(r) * (n(q) + n(p)) + 1e-12 * mag)
    ctx.close(abs(P * Q), n(p) * n(q), t, "norm is multiplicative", scale=n(p) * n(q) + 1e-12 * mag)
    ctx.close(vec(ctx, (P * Q).conj()), vec(ctx, Q.conj() * P.conj()), t, "conjugate of a product", scale=n(p) * n(q) + 1e-12 * mag)
    ctx.close(vec(ctx, P * P.conj()), [n(p) ** 2, 0, 0, 0], t, "q conj(q)", scale=n(p) ** 2 + 1e-12 * mag)
    ctx.close(abs(P), n(p), t, "norm", scale=n(p) + 1e-12 * mag)
    s = num(c["s"])
    ctx.close(vec(ctx, s - P), -vec(ctx, P - s), t, "scalar minus quaternion", scale=sc + 4)
    ctx.close(vec(ctx, s + P), vec(ctx, P + s), t, "scalar plus quaternion", scale=sc + 4)
    ctx.close(vec(ctx, s * P), vec(ctx, P * s), t, "scalar times quaternion", scale=4 * sc)
    if n(q) > 0.1 * mag:
        for what, v in (("q q^-1", Q * Q.reciprocal()), ("q^-1 q", Q.reciprocal() * Q), ("q / q", Q / Q),
                        ("left division q \\ q", quaternion_left_div(Q, Q))):
            ctx.close(vec(ctx, v), [1, 0, 0, 0], t, what, scale=1.0)
        ctx.close(vec(ctx, (P / Q) * Q), p, t, "(p/q) q", scale=n(p) + 1e-12)
        ctx.close(vec(ctx, Q * quaternion_left_div(P, Q)), p, t, "q (q\\p)", scale=n(p) + 1e-12)
        ctx.close(vec(ctx, quaternion_right_div(P, Q)), vec(ctx, P / Q), t, "right division", scale=n(p) / n(q) + 1e-12)
        ctx.label("invertible")
    z = Quaternion.zero_quaternion()
    ctx.close(vec(ctx, P + z), p, t, "zero quaternion", scale=sc)


tree_cases = st.fixed_dictionaries(dict(qs=st.lists(qs, min_size=2, max_size=5), r=qs, i=st.integers(0, 3),
                                        delta=gen.pick(1e-3, 1.0, -0.5), exact=st.booleans()))


def chk_pytree(c, ctx):
    V = np.array(c["qs"])
    r = np.array(c["r"])
    Q, R = Qof(V[0]), Qof(r)
    leaves, td = jax.tree_util.tree_flatten(Q)
    back = jax.tree_util.tree_unflatten(td, leaves)
    ctx.true(len(leaves) == 2, "a quaternion has two leaves", n=len(leaves))
    ctx.close(vec(ctx, back), V[0], TOL, "flatten/unflatten")
    ctx.true(bool(back == Q), "flatten/unflatten changed the quaternion")
    ctx.close(vec(ctx, jax.tree_util.tree_map(lambda x: 3 * x, Q)), 3 * V[0], TOL * 10, "tree_map")
    ctx.close(vec(ctx, jax.jit(lambda q: q)(Q)), V[0], TOL, "jit identity")
    # vmap: batched quaternions in and out
    B = jax.vmap(lambda v: Quaternion(v[0], v[1:]))(A(V))
    ctx.close(np.concatenate([np.asarray(B.real)[:, None], np.asarray(B.imag)], -1), V, TOL, "vmap construction")
    P = jax.vmap(lambda q: q * R, in_axes=0)(B)
    e = quat.mul(V, np.tile(r, (len(V), 1)))
    ctx.close(np.concatenate([np.asarray(P.real)[:, None], np.asarray(P.imag)], -1), e, TOL * 40, "vmap product", scale=1 + np.abs(e).max())
    P = jax.vmap(lambda q, p: q * p, in_axes=(0, None))(B, R)
    ctx.close(np.concatenate([np.asarray(P.real)[:, None], np.asarray(P.imag)], -1), e, TOL * 40, "vmap product", scale=1 + np.abs(e).max())
    # scan / cond carry quaternions
    out, _ = jax.lax.scan(lambda q, x: (q * x, None), R, B)
    w = r
    for v in V:
        w = quat.mul(w, v)
    ctx.close(vec(ctx, out), w, TOL * 100, "scan", scale=np.prod(1 + np.linalg.norm(V, axis=-1)) * (1 + np.linalg.norm(r)))
    # equality
    o = V[0].copy()
    ctx.true(bool(Qof(o) == Q), "equal components compare unequal", q=o)
    o[c["i"]] += c["delta"]
    ctx.true(not bool(Qof(o) == Q), "different components compare equal", q=V[0], other=o)
    ctx.true(bool(Qof(o) != Q), "!= disagrees with ==", q=V[0], other=o)
    ctx.true(not bool(Q == float(V[0][0])) and bool(Q != None), "a quaternion equals something that is not one")  # noqa: E711
    ctx.count(len(V))


GROUPS = [
    Group("expr", expr_cases, chk_expr, 900, 20000),
    Group("laws", law_cases, chk_laws, 250, 4000),
    Group("pytree", tree_cases, chk_pytree, 120, 1500),
]
