"""R-function systems: strategies, construction, Kleene sign oracle and a conditioning analysis (shared by C01, C03)."""
import numpy as np
from hypothesis import strategies as st

import gen
from core import X64
from magpi import r_fun

EPS = float(np.finfo(np.float64 if X64 else np.float32).eps)
BIG = 1e60 if X64 else 1e8
LO, HI = (1e-30, 1e30) if X64 else (1e-3, 1e4)

OPS2 = ["and", "or", "diff", "xor", "equiv", "impl"]


def alphas():
    lo = -0.95 if X64 else -0.3
    return gen.special(lo, 1.0, [0.0, 1.0, 0.5, -0.5, 0.25, 0.999, 0.9999999, 0.99999999999])


def sys_normalized():
    return st.one_of(
        alphas().map(lambda a: ["alpha", a]),
        gen.pick(2, 4, 6, 8).map(lambda p: ["p", p]),
        gen.pick("r0", "r1", "rp2", "rp4").map(lambda n: ["named", n]))


def sys_any():
    return st.one_of(sys_normalized(),
                     st.tuples(gen.pick(0, 1, 2, 0.5, 3), alphas()).map(lambda t: ["alpham", t[0], t[1]]))


def build(spec):
    if spec[0] == "alpha":
        return r_fun.RAlpha(spec[1])
    if spec[0] == "p":
        return r_fun.RP(spec[1])
    if spec[0] == "alpham":
        return r_fun.RAlphaM(spec[1], spec[2])
    if spec[0] == "rho":
        return r_fun.RhoBlending(spec[1])
    return getattr(r_fun, spec[1])


def trees(n_leaves, depth, ops=OPS2, neg=True):
    leaf = st.integers(0, n_leaves - 1).map(lambda i: ["leaf", i])

    def level(d):
        if d == 0:
            return leaf
        sub = level(d - 1)
        two = st.tuples(gen.pick(*ops), sub, sub).map(list)
        return st.one_of(two, two, leaf, sub.map(lambda t: ["neg", t])) if neg else st.one_of(two, two, leaf)

    # the root is always a binary operation
    sub = level(depth - 1)
    return st.tuples(gen.pick(*ops), sub, sub).map(list)


def size(t):
    return 1 if t[0] == "leaf" else 1 + sum(size(s) for s in t[1:])


def adf_of(t, leaves, rs):
    """The ADF built through the public operations of the R-system."""
    k = t[0]
    if k == "leaf":
        return leaves[t[1]]
    subs = [adf_of(s, leaves, rs) for s in t[1:]]
    f = dict(neg=rs.negate, **{"and": rs.intersection, "or": rs.union}, diff=rs.difference, xor=rs.xor,
             equiv=rs.equivalence, impl=rs.implication)[k]
    return f(*subs)


def kleene(t, s):
    """Sign in {-1,0,1} of the Boolean combination; s: leaf signs, shape (..., n)."""
    k = t[0]
    if k == "leaf":
        return s[..., t[1]]
    a = kleene(t[1], s)
    if k == "neg":
        return -a
    b = kleene(t[2], s)
    mn, mx = np.minimum, np.maximum
    return {"and": lambda: mn(a, b), "or": lambda: mx(a, b), "diff": lambda: mn(a, -b),
            "xor": lambda: mx(mn(a, -b), mn(-a, b)), "equiv": lambda: mn(mx(a, -b), mx(-a, b)),
            "impl": lambda: mx(-a, b)}[k]()


def _op(spec, a, b, ea, eb, sg):
    """float64 model of conjunction (sg=-1) / disjunction (sg=+1), with a running bound of the rounding error."""
    if spec[0] == "named":
        spec = {"r0": ["alpha", 0.0], "r1": ["alpha", 1.0], "rp2": ["p", 2], "rp4": ["p", 4]}[spec[1]]
    m = np.abs(a) + np.abs(b)
    if spec[0] in ("alpha", "alpham"):
        al = float(spec[-1])
        k = 1 / (1 + al)
        c = a + b + sg * np.sqrt(np.maximum((1 - abs(al)) * (a**2 + b**2) + abs(al) * (a - np.sign(al) * b) ** 2, 0))
        v, e = k * c, 2 * k * (ea + eb) + 8 * EPS * k * m
        # the radicand may lose half of the digits when it nearly vanishes
        e = e + k * np.sqrt(EPS) * np.where(np.abs(np.abs(a) - np.abs(b)) < 1e-2 * m, m, 0) * (1.0 if abs(al) > 0.99 else 0.0)
        if spec[0] == "alpham" and spec[1] != 0:
            mm = float(spec[1])
            r = np.sqrt(a**2 + b**2)
            with np.errstate(all="ignore"):
                lip = np.where(r > 0, mm * np.abs(k * c) * r ** (mm - 1), 0)
            e = e * r**mm + lip * (ea + eb) + 8 * EPS * np.abs(v) * r**mm
            v = v * r**mm
        # far beyond any sensible length the products may over- or underflow
        big = np.maximum(np.abs(v), m)
        return v, np.where((big > BIG) | ((np.abs(v) < 1 / BIG) & (v != 0)), np.inf, e)
    p = spec[1]
    with np.errstate(all="ignore"):
        c = np.maximum(np.abs(a), np.abs(b))
        q = np.where(c > 0, c * ((a / np.where(c > 0, c, 1)) ** p + (b / np.where(c > 0, c, 1)) ** p) ** (1 / p), 0)
    v = a + b + sg * q
    e = 2 * (ea + eb) + 16 * EPS * p * m
    lo = np.minimum(np.where(a == 0, np.inf, np.abs(a)), np.where(b == 0, np.inf, np.abs(b)))
    e = np.where((c > HI) | (lo < LO), np.inf, e)
    return v, e


def model(t, spec, X):
    k = t[0]
    if k == "leaf":
        return X[..., t[1]], np.zeros(X.shape[:-1])
    a, ea = model(t[1], spec, X)
    if k == "neg":
        return -a, ea
    b, eb = model(t[2], spec, X)
    con = lambda a, b, ea, eb: _op(spec, a, b, ea, eb, -1)
    dis = lambda a, b, ea, eb: _op(spec, a, b, ea, eb, +1)
    if k == "and":
        return con(a, b, ea, eb)
    if k == "or":
        return dis(a, b, ea, eb)
    if k == "diff":
        return con(a, -b, ea, eb)
    if k == "impl":
        return dis(-a, b, ea, eb)
    if k == "xor":
        (c1, e1), (c2, e2) = con(a, -b, ea, eb), con(-a, b, ea, eb)
        return dis(c1, c2, e1, e2)
    (c1, e1), (c2, e2) = dis(a, -b, ea, eb), dis(-a, b, ea, eb)
    return con(c1, c2, e1, e2)


def operand_points(seed, kind, n, k, lo=0.05, hi=20.0):
    """n operand vectors of k leaves: log-uniform magnitudes, both signs, zeros, ties, opposite values, near-ties."""
    r = gen.rng(seed, 1)
    X = np.exp(r.uniform(np.log(lo), np.log(hi), (n, k))) * r.choice([-1.0, 1.0], (n, k))
    if kind in ("zeros", "mixed"):
        X = np.where(r.random((n, k)) < 0.25, 0.0, X)
    if kind in ("ties", "mixed") and k > 1:
        j = r.integers(0, k, (n, k))
        T = np.take_along_axis(X, j, 1) * r.choice([-1.0, 1.0], (n, k), p=[0.3, 0.7])
        T = T * (1 + r.choice([0.0, 0.0, 1e-3, 1e-6, EPS, 2 * EPS, -EPS], (n, k)))
        X = np.where(r.random((n, k)) < 0.5, T, X)
    return X if X64 else X.astype(np.float32).astype(np.float64)
