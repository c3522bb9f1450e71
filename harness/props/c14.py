"""C14: layer potentials equal the direct surface integral of the (Taylor expanded) charge."""
from functools import lru_cache
from math import comb

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import gen
from core import Group, Skip, X64
from ev import A
from magpi.integrate import gauss
from magpi.surface_integral import charge_tensor, curl_single_layer_potential, single_layer_potential, source_tensor
from props import patches as P

TOL = 2e-12 if X64 else 2e-4
G = {n: gauss(n) for n in (2, 4, 5)}
N = 5  # charges are polynomials of degree up to 4
DEG = np.indices((N, N, N)).sum(0)


def charge_fn(x, C):
    m = [jnp.stack([jnp.ones_like(t), t, t * t, t * t * t, t * t * t * t]) for t in x]
    T = m[0][:, None, None] * m[1][:, None] * m[2]
    return jnp.tensordot(C, T, 3)


def charge_kw(x, *, C):
    return charge_fn(x, C)


@lru_cache(None)
def runner(kind, order, g, vec, args, jac):
    def run(params, x, u, v, C):
        m = P.jax_map(kind, params)
        kw = dict(method=G[g]) if g else {}
        if order is not None:
            kw["order"] = order
        okw = {} if order is None else dict(order=order)
        Q = charge_tensor(charge_fn, m, u, v, C, **okw) if args == "pos" else charge_tensor(charge_kw, m, u, v, C=C, **okw)
        if jac:
            S, dS = source_tensor(x, m, u, v, **kw)
            out = [single_layer_potential(S, Q), single_layer_potential(dS, Q)]
            if vec:
                out.append(curl_single_layer_potential(dS, Q))
            return out
        return [single_layer_potential(source_tensor(x, m, u, v, compute_jacfwd=False, **kw), Q)]
    return run, jax.jit(run)


def taylor(C, c, order, d):
    """Value of the order-truncated Taylor polynomial (about c) of the polynomial C at c + d."""
    S = [np.array([[comb(a, b) * (ci ** (a - b) if a >= b else 0.0) for b in range(N)] for a in range(N)]) for ci in c]
    T = np.einsum("...abc,ai,bj,ck->...ijk", C, *S)
    T = np.where(DEG <= order, T, 0)
    M = [d[..., i][..., None] ** np.arange(N) for i in range(3)]
    return np.einsum("...ijk,xi,xj,xk->...x", T, *[m.reshape(-1, N) for m in M])


def direct(c, u, v, g, order, C, x):
    nu, wu = P.gauss_nodes(u, g)
    nv, wv = P.gauss_nodes(v, g)
    f = P.np_map(c["patch"])
    pot, gr, dmin, spot, sgr = 0.0, 0.0, np.inf, 0.0, 0.0
    for i in range(len(u) - 1):
        for j in range(len(v) - 1):
            Y, a = f(nu[i][:, None], nv[j][None, :])
            w = (wu[i][:, None] * wv[j] * a).ravel()
            Y = Y.reshape(-1, 3)
            cen = f((u[i] + u[i + 1]) / 2, (v[j] + v[j + 1]) / 2)[0]
            q = taylor(C, cen, order, Y - cen)
            r = x - Y
            n = np.linalg.norm(r, axis=-1)
            dmin = min(dmin, n.min())
            pot = pot + (q * (w / n)).sum(-1)
            gr = gr + np.einsum("...x,xk->...k", q, -(w / n**3)[:, None] * r)
            qa = taylor(np.abs(C), np.abs(cen), order, np.abs(Y) + np.abs(cen)).reshape(-1, len(w)).max(0)  # sum without cancellation
            spot += (qa * np.abs(w) / n).sum()
            sgr += (qa * np.abs(w) / n**2).sum()
    return pot / (4 * np.pi), gr / (4 * np.pi), dmin, (spot + 1e-3 * P.mag(c["patch"]), sgr + 1e-3)


cases = st.fixed_dictionaries(dict(patch=P.patch, order=gen.pick(None, 0, 1, 2, 3, 4), g=gen.pick(2, 4, None), vec=st.booleans(), args=gen.pick("pos", "kw"),
                                   jac=gen.pick(True, True, True, False), seed=gen.seeds, deg=gen.pick(0, 1, 2, 3, 4, 4), eager=gen.pick(*[False] * 7, True),
                                   grid=gen.pick((3, 4), (3, 4), (2, 2), (5, 2)), x=gen.vec(3, -3, 3, 1), far=gen.pick(False, False, False, True)))


def chk(c, ctx):
    r = gen.rng(c["seed"])
    u, v = (np.sort(r.permutation(12)[:k]) / 12 for k in c["grid"])
    order = 2 if c["order"] is None else c["order"]
    C = r.integers(-8, 9, ((3, N, N, N) if c["vec"] else (N, N, N))) / 8
    mag = P.mag(c["patch"])
    C = np.where(DEG <= c["deg"], C, 0.0) / mag ** DEG
    g = c["g"] or 5
    x = np.array(c["x"]) * mag * (30.0 if c.get("far") else 1.0)
    pot, gr, dmin, (sp, sg) = direct(c, u, v, g, order, C, x)
    if dmin < 0.15 * mag:  # keep the kernel away from its singularity: move the target off the patch
        x = x + np.array([0, 0, 7.0]) * mag
        pot, gr, dmin, (sp, sg) = direct(c, u, v, g, order, C, x)
        if dmin < 0.15 * mag:
            raise Skip
    run, jrun = runner(c["patch"]["kind"], c["order"], c["g"], c["vec"], c["args"], c["jac"])
    out = (run if c["eager"] else jrun)(P.jax_params(c["patch"]), A(x), A(u), A(v), A(C))
    ctx.close(out[0], pot, TOL, "single layer potential", scale=sp)
    if c["jac"]:
        ctx.close(out[1], gr, TOL, "gradient of the potential", scale=sg)
        if c["vec"]:
            J = gr
            curl = np.array([J[2, 1] - J[1, 2], J[0, 2] - J[2, 0], J[1, 0] - J[0, 1]])
            ctx.close(out[2], curl, TOL, "curl of the potential", scale=sg)
    if c["deg"] <= order:  # then the Taylor polynomial is the charge itself
        exact = direct(c, u, v, g, 4, C, x)[0]
        ctx.close(out[0], exact, TOL, "potential of a polynomial charge", scale=sp)
    ctx.label(f"size{mag}", "far" if c.get("far") else "near", c["patch"]["kind"], f"order{c['order']}", "vector" if c["vec"] else "scalar", f"deg{c['deg']}", "jac" if c["jac"] else "value", c["args"])
    ctx.trivial(not np.any(C))
    ctx.count(6 * g * g)


def sph(x):
    th, ph = jnp.pi * x[0], 2 * jnp.pi * x[1]
    return jnp.stack([jnp.sin(th) * jnp.cos(ph), jnp.sin(th) * jnp.sin(ph), jnp.cos(th)])


@lru_cache(None)
def sphere_runner():
    def run(R, o, x, q):
        m = lambda z: o + R * sph(z)
        u, v = jnp.linspace(0, 1, 7), jnp.linspace(0, 1, 11)
        S, dS = source_tensor(x, m, u, v, method=G[5], order=1)
        Q = charge_tensor(lambda y, q: q[0] + q[1:] @ (y - o), m, u, v, q, order=1)
        M = charge_tensor(lambda y, q: jnp.cross(q[1:], (y - o) / R), m, u, v, q, order=1)
        return single_layer_potential(S, Q), single_layer_potential(dS, Q), single_layer_potential(S, M), curl_single_layer_potential(dS, M)
    return jax.jit(run)


sphere_cases = st.fixed_dictionaries(dict(R=gen.num(0.5, 2, 2), o=gen.vec(3, -1, 1, 1), dir=gen.vec_nz(3), rel=gen.pick(0.0, 0.2, 0.5, 1.7, 2.0, 4.0),
                                          q=gen.vec(4, -2, 2, 1)))


def chk_sphere(c, ctx):
    """Closed spheres: charges q0 + q1.(y-o) and the uniformly magnetized sphere have analytic potentials."""
    R, o, q = c["R"], np.array(c["o"]), np.array(c["q"])
    d = np.array(c["dir"]) / np.linalg.norm(c["dir"]) * c["rel"] * R
    r = np.linalg.norm(d)
    m = q[1:]
    phi, gphi, Av, B = sphere_runner()(A(R), A(o), A(o + d), A(q))
    if r < R:
        e = q[0] * R + R / 3 * (m @ d)
        ge = R / 3 * m
        eA = np.cross(m, d) / 3
        eB = 2 / 3 * m
    else:
        e = q[0] * R**2 / r + R**4 / 3 * (m @ d) / r**3
        ge = -q[0] * R**2 * d / r**3 + R**4 / 3 * (m / r**3 - 3 * (m @ d) * d / r**5)
        eA = R**3 / 3 * np.cross(m, d) / r**3
        eB = R**3 / 3 * (3 * (m @ d) * d / r**5 - m / r**3)
    s = 1 + np.abs(q).sum() * (1 + R**2)
    t = 2e-5 if X64 else 2e-3
    ctx.close(phi, e, t, "potential of a charged sphere", scale=s)
    ctx.close(gphi, ge, 10 * t, "field of a charged sphere", scale=s)
    ctx.close(Av, eA, t, "vector potential of a magnetized sphere", scale=s)
    ctx.close(B, eB, 10 * t, "flux of a magnetized sphere", scale=s)
    ctx.label("inside" if r < R else "outside")
    ctx.trivial(not q.any())
    ctx.count(1)


GROUPS = [
    Group("patch", cases, chk, 240, 6000),
    Group("sphere", sphere_cases, chk_sphere, 480, 8000),
]
