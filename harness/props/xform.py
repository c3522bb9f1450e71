"""Transformation chains of ADFs shared by C03 and C04: strategies, application through the library, numpy inverse/forward maps."""
import numpy as np
from hypothesis import strategies as st

import gen
import geo
from ev import A
from magpi import r_fun

FORMS = ["list", "tuple", "np", "jnp"]


def form(v, f):
    """The same numbers in another container."""
    if np.ndim(v) == 0:
        if f == "np":
            return np.asarray(v)[()] if isinstance(v, int) else np.float64(v)
        return A(v) if f == "jnp" and not isinstance(v, int) else v
    v = list(v)
    return {"list": v, "tuple": tuple(v), "np": np.array(v, dtype=float), "jnp": A(v)}[f]


def origin(d):
    return st.one_of(st.none(), gen.vec(d, -2, 2, 2), st.lists(st.integers(-2, 2), min_size=d, max_size=d))


def angle():
    return st.one_of(gen.num(-7, 7, 3), st.integers(-4, 4))


def intvec(d):
    def nz(v):
        return v if any(v) else [1] + v[1:]
    return st.lists(st.integers(-3, 3), min_size=d, max_size=d).map(nz)


# sizes far from one (a few of them: they cost precision)
WIDE = gen.pick(0.001, 0.01, 0.05, 12, 40.0, 150, 1000.0)


def op(d, rigid=False):
    f = gen.pick(*FORMS)
    ops = [
        st.tuples(st.just("translate"), st.one_of(gen.vec(d, -2, 2, 2), intvec(d)), f),
        st.tuples(st.just("scale"), st.one_of(gen.num(0.3, 3, 2), st.integers(1, 3), gen.num(0.3, 3, 2), WIDE), gen.pick("plain", "jnp", "list")),
        st.tuples(st.just("reflect"), st.one_of(gen.vec_nz(d), intvec(d)), origin(d), f),
    ]
    if d == 2:
        ops += [st.tuples(st.just("rotate2d"), angle(), origin(2), gen.pick("plain", "jnp"))] * 2
    if d == 3:
        ops += [st.tuples(st.just("rotate3d"), angle(), st.one_of(gen.vec_nz(3), intvec(3)), origin(3), f),
                st.tuples(st.just("euler"), gen.vec(3, -4, 4, 2), origin(3), f)]
    if not rigid:
        ops += [st.tuples(st.just("scale_free"), st.one_of(gen.vec(d, 0.3, 3, 2), gen.num(0.3, 3, 2)), f),
                st.tuples(st.just("project"), st.one_of(gen.vec_nz(d), intvec(d)), origin(d), f)]
    return st.one_of(ops).map(list)


def chain(d, lo=1, hi=4, rigid=False):
    return st.lists(op(d, rigid), min_size=lo, max_size=hi)


def _o(kw, o, f):
    if o is not None:
        kw["o"] = form(o, f)
    return kw


def apply(adf, t):
    k = t[0]
    if k == "translate":
        return r_fun.translate(adf, form(t[1], t[2]))
    if k == "scale":
        s = {"plain": lambda v: v, "jnp": lambda v: A(v), "list": lambda v: [v]}[t[2]](t[1])
        return r_fun.scale(adf, s)
    if k == "scale_free":
        return r_fun.scale_without_normalization(adf, form(t[1], t[2]))
    if k == "rotate2d":
        a = t[1] if t[3] == "plain" else A(t[1])
        return r_fun.rotate2d(adf, a, **_o({}, t[2], "tuple" if t[3] == "plain" else "jnp"))
    if k == "rotate3d":
        return r_fun.rotate3d(adf, t[1], form(t[2], t[4]), **_o({}, t[3], t[4]))
    if k == "euler":
        return r_fun.rotate3d(adf, form(t[1], t[3]), **_o({}, t[2], t[3]))
    f = r_fun.reflect if k == "reflect" else r_fun.project
    # a vector operand of the matrix product must be an array or sequence
    return f(adf, form(t[1], t[3]), **_o({}, t[2], t[3]))


def matrix(t, d):
    """Orthogonal matrix and origin of a rigid transformation."""
    k = t[0]
    if k == "rotate2d":
        return geo.rot2(t[1]), t[2]
    if k == "rotate3d":
        return geo.rot3(t[2], t[1]), t[3]
    if k == "euler":
        return geo.euler(t[1]), t[2]
    return geo.householder(t[1]), t[2]


def inverse(t, x):
    """(point at which the original is evaluated, factor of the value)"""
    k, d = t[0], x.shape[-1]
    if k == "translate":
        return x - np.array(t[1], float), 1.0
    if k == "scale":
        return x / t[1], float(t[1])
    if k == "scale_free":
        return x / np.array(t[1], float), 1.0
    if k == "project":
        n = np.array(t[1], float)
        o = np.zeros(d) if t[2] is None else np.array(t[2], float)
        return x - ((x - o) @ n)[..., None] * n / (n @ n), 1.0
    M, o = matrix(t, d)
    o = np.zeros(d) if o is None else np.array(o, float)
    return (x - o) @ M + o, 1.0  # row vectors: (M^T (x-o))


def forward(t, x, n):
    """Moves a boundary point and its unit normal along."""
    k, d = t[0], x.shape[-1]
    if k == "translate":
        return x + np.array(t[1], float), n
    if k == "scale":
        return x * t[1], n
    M, o = matrix(t, d)
    o = np.zeros(d) if o is None else np.array(o, float)
    return (x - o) @ M.T + o, n @ M.T
