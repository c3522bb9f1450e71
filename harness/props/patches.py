"""Parametrized surface patches: jax map (under test input) and an independent numpy map with analytic area element."""
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import gen
from ev import A
from geo import euler

KINDS = ["plane", "cylinder", "sphere", "torus", "graph", "cone"]
patch = st.fixed_dictionaries(dict(kind=gen.pick(*KINDS), p=st.lists(gen.num(0.3, 1.5, 2), min_size=4, max_size=4),
                                   ang=st.lists(gen.num(-3, 3, 1), min_size=3, max_size=3), o=st.lists(gen.num(-1, 1, 1), min_size=3, max_size=3),
                                   mag=gen.pick(1.0, 1.0, 1.0, 0.01, 50.0)))


def mag(c):
    """size of the patch"""
    return c.get("mag", 1.0)


def local(xp, k, p, u, v):
    """Point of the patch in its own frame (u, v in about [0,1])."""
    if k == "plane":
        return p[0] * u + 0.5 * v, p[1] * v - 0.3 * u, 0.7 * u + p[2] * v
    if k == "cylinder":
        return p[0] * xp.cos(1.5 * u + p[3]), p[0] * xp.sin(1.5 * u + p[3]), p[1] * v
    if k == "sphere":
        th, ph = 0.5 + 1.2 * u, 1.4 * v + p[3]
        return p[0] * xp.sin(th) * xp.cos(ph), p[0] * xp.sin(th) * xp.sin(ph), p[0] * xp.cos(th)
    if k == "torus":
        R, r = 1.0 + p[0], 0.8 * p[1] / 1.5
        a, b = 1.3 * u + p[3], 1.4 * v
        return (R + r * xp.cos(a)) * xp.cos(b), (R + r * xp.cos(a)) * xp.sin(b), r * xp.sin(a)
    if k == "graph":
        return u, v, p[0] * u * u - p[1] * u * v + 0.5 * p[2] * v * v * v
    return (p[0] + p[1] * v) * xp.cos(1.4 * u), (p[0] + p[1] * v) * xp.sin(1.4 * u), p[2] * v


def area(k, p, u, v):
    """Analytic area element of `local`."""
    if k == "plane":
        a, b = np.array([p[0], -0.3, 0.7]), np.array([0.5, p[1], p[2]])
        return np.full(np.shape(u), np.linalg.norm(np.cross(a, b)))
    if k == "cylinder":
        return np.full(np.shape(u), 1.5 * p[0] * p[1])
    if k == "sphere":
        return p[0] ** 2 * np.sin(0.5 + 1.2 * u) * 1.2 * 1.4
    if k == "torus":
        R, r = 1.0 + p[0], 0.8 * p[1] / 1.5
        return r * (R + r * np.cos(1.3 * u + p[3])) * 1.3 * 1.4
    if k == "graph":
        return np.sqrt(1 + (2 * p[0] * u - p[1] * v) ** 2 + (-p[1] * u + 1.5 * p[2] * v * v) ** 2)
    return 1.4 * (p[0] + p[1] * v) * np.sqrt(p[1] ** 2 + p[2] ** 2)


def frame(c):
    return euler(c["ang"]), np.array(c["o"])


def jax_params(c):
    Q, o = frame(c)
    return A(Q * mag(c)), A(o * mag(c)), A(c["p"])


def jax_map(kind, params):
    Q, o, p = params
    return lambda x: Q @ jnp.stack(local(jnp, kind, p, x[0], x[1])) + o


def np_map(c):
    Q, o = frame(c)
    k, p = c["kind"], c["p"]

    def f(u, v):
        u, v = np.broadcast_arrays(np.asarray(u, float), np.asarray(v, float))
        m = mag(c)
        return m * (np.stack(np.broadcast_arrays(*local(np, k, p, u, v)), -1) @ Q.T + o), m * m * area(k, p, u, v)
    return f


def gauss_nodes(part, n):
    """Composite n-point Gauss nodes/weights per cell: arrays (cells, n)."""
    x, w = np.polynomial.legendre.leggauss(n)
    a, b = np.asarray(part, float)[:-1, None], np.asarray(part, float)[1:, None]
    return (a + b) / 2 + (b - a) / 2 * x, (b - a) / 2 * w
