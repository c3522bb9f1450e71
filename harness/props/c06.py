"""C06: quaternion exponential, logarithm and powers are consistent."""
import jax
import numpy as np
from hypothesis import strategies as st
from scipy.linalg import expm

import gen
import quat
from core import Group, X64
from ev import A
from magpi.quaternions import Quaternion, quanternion_exp, quanternion_log
from props.c05 import Qof, vec, whole

TOL = 1e-11 if X64 else 2e-5
E = 8 if X64 else 4


def shape_q(t):
    """kind, direction, exponent of magnitude -> components"""
    kind, a, v, ex, tiny = t
    v = np.array(v)
    v = v / np.linalg.norm(v)
    if kind == "real+":
        q = np.array([1.0, 0, 0, 0])
    elif kind == "real-":
        q = np.array([-1.0, 0, 0, 0])
    elif kind == "imag":
        q = np.concatenate([[0.0], v])
    elif kind == "near-real":
        q = np.concatenate([[np.sign(a) or 1.0], v * 10.0 ** -tiny])
    elif kind == "axis":
        q = np.concatenate([[a], np.round(v) if np.abs(np.round(v)).any() else [0, 0, 1.0]])
    else:
        q = np.concatenate([[a], v])
    return [float(x) for x in q * 10.0 ** ex]


kinds = gen.pick("generic", "generic", "real+", "real-", "imag", "near-real", "axis")
quats = st.tuples(kinds, gen.num(-3, 3, 2), gen.vec_nz(3), gen.num(-E, E, 1), st.integers(1, 12)).map(shape_q)
small = st.tuples(kinds, gen.num(-2, 2, 2), gen.vec_nz(3), gen.num(-1, 0.5, 1), st.integers(1, 12)).map(shape_q)
forms = gen.pick("jit", "jit", "jit", "jit", "jit", "jit", "jit", "eager")

FUNS = dict(
    log=lambda q: quanternion_log(q),
    exp=lambda q: quanternion_exp(q),
    explog=lambda q: quanternion_exp(quanternion_log(q)),
    logexp=lambda q: quanternion_log(quanternion_exp(q)),
    pow=lambda q, n: q**n,
    powpow=lambda q, a, b: q**a * q**b,
    rpow=lambda q, s: s**q)
JITTED = {k: jax.jit(f) for k, f in FUNS.items()}  # compiled once per process


def J(k, c):
    return (JITTED if c["mode"] == "jit" else FUNS)[k]


def nrm(v):
    return float(np.linalg.norm(v))


log_cases = st.fixed_dictionaries(dict(q=quats, mode=forms))


def chk_explog(c, ctx):
    q = np.array(c["q"])
    l = vec(ctx, J("log", c)(Qof(q)), "log")
    ctx.finite(l, "log", q=q)
    ctx.close(l[0], np.log(nrm(q)), 1e-10 if X64 else 1e-4, "real part of log")
    ctx.true(nrm(l[1:]) <= np.pi + 1e-3, "log is not principal", q=q, log=l)
    r = vec(ctx, J("explog", c)(Qof(q)), "exp(log q)")
    ctx.close(r, q, TOL, "exp(log q)", scale=nrm(q), q=q)
    ctx.label("real" if not q[1:].any() else "imag" if q[0] == 0 else "generic", "neg" if q[0] < 0 else "pos")
    ctx.count(1)


exp_cases = st.fixed_dictionaries(dict(a=gen.num(-4, 4, 2), v=gen.vec(3, -4, 4, 2), tiny=gen.pick(*[0] * 6, *range(1, 13)), mode=forms, whole=gen.pick(False, False, False, True)))


def chk_exp(c, ctx):
    q = np.array([c["a"]] + [t * 10.0 ** -c.get("tiny", 0) for t in c["v"]])
    if c.get("whole"):
        q = np.round(q)
        ctx.label("integers")
    e = expm(quat.left_matrix(q))[:, 0]
    r = vec(ctx, J("exp", c)((whole if c.get("whole") else Qof)(q)), "exp")
    ctx.close(r, e, 1e-11 if X64 else 2e-5, "exp differs from the power series", scale=np.exp(c["a"]) * (1 + nrm(q)), q=q)
    if q[1:].any():  # the part next to the real axis keeps its own digits
        ctx.close(r[1:], e[1:], 1e-9 if X64 else 1e-3, "imaginary part of exp", scale=nrm(e[1:]) + np.exp(c["a"]) * (3e-7 if X64 else 1e-2), q=q)
    if nrm(q[1:]) < np.pi - 0.02:
        l = vec(ctx, J("logexp", c)(Qof(q)), "log(exp q)")
        ctx.close(l, q, TOL, "log(exp q)", scale=1 + nrm(q), q=q)
        ctx.label("principal")
    ctx.label(f"tiny{c.get('tiny', 0)}")
    ctx.count(1)


pow_cases = st.fixed_dictionaries(dict(q=small, n=st.integers(-5, 6), a=gen.num(-2, 2, 2), b=gen.num(-2, 2, 2),
                                       s=st.one_of(gen.num(0.1, 6, 2), gen.num(-E, E, 1).map(lambda t: float(10.0**t))), nform=gen.pick("int", "float", "jnp"), mode=forms))


def chk_pow(c, ctx):
    q = np.array(c["q"])
    n = c["n"]
    base = q if n >= 0 else quat.inv(q)
    e = np.array([1.0, 0, 0, 0])
    for _ in range(abs(n)):
        e = quat.mul(e, base)
    ex = {"int": n, "float": float(n), "jnp": A(n)}[c["nform"]]
    r = vec(ctx, J("pow", c)(Qof(q), ex), "q**n")
    ctx.close(r, e, TOL * (2 + abs(n)), "integer power", scale=nrm(e), q=q, n=n)
    a, b = c["a"], c["b"]
    Q = Qof(q)
    l = vec(ctx, J("powpow", c)(Q, a, b), "q**a q**b")
    m = vec(ctx, J("pow", c)(Q, a + b), "q**(a+b)")
    ctx.close(l, m, TOL * 6, "q**a q**b = q**(a+b)", scale=nrm(q) ** (a + b), q=q, a=a, b=b)
    h = vec(ctx, J("pow", c)(Q, 0.5), "sqrt")
    ctx.close(quat.mul(h, h), q, TOL * 4, "square of the square root", scale=nrm(q))
    ctx.true(h[0] >= -1e-3 * nrm(h), "square root is not principal", q=q, root=h)
    s = c["s"]
    p = vec(ctx, J("rpow", c)(Q, s), "s**q")
    z = q * np.log(s)
    m, t = np.exp(z[0]), nrm(z[1:])
    p2 = np.concatenate([[m * np.cos(t)], m * np.sinc(t / np.pi) * z[1:]])
    ctx.close(p, p2, 1e-11 if X64 else 1e-5, "s**q = exp(q log s)", scale=m * (1 + nrm(z)), s=s, q=q)
    ctx.label(f"n{n}", c["nform"])
    ctx.count(4)


GROUPS = [
    Group("explog", log_cases, chk_explog, 500, 10000),
    Group("exp", exp_cases, chk_exp, 300, 6000),
    Group("pow", pow_cases, chk_pow, 300, 6000),
]
