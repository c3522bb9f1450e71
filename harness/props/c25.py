"""C25: rejection sampling draws from the requested density."""
from functools import lru_cache

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st
from scipy import stats

import gen
import stat_tests
from core import Group, X64
from ev import A
from magpi.sampling import rejection_sampling

K = 6
N = 4000
STRUCT = ["scalar", "tuple", "dict", "mat"]


def pack(kind, i):
    """sample of the given structure for category i"""
    f = i.astype(float)
    return {"scalar": lambda: i, "tuple": lambda: (f, jnp.stack([f + 10, -f])), "dict": lambda: dict(b=[i + 5], a=jnp.full((2, 3), f)), "mat": lambda: f[None, None]}[kind]()


def unpack(kind, s):
    return {"scalar": lambda: s, "tuple": lambda: s[0].astype(int), "dict": lambda: s["b"][0] - 5, "mat": lambda: s[..., 0, 0].astype(int)}[kind]()


def consistent(ctx, kind, s, n):
    """all leaves of every sample belong together and have the leading axis n"""
    sh = dict(scalar=[()], tuple=[(), (2,)], dict=[(2, 3), ()], mat=[(1, 1)])[kind]
    lv = jax.tree_util.tree_leaves(s)
    ctx.true(len(lv) == len(sh), "samples have another structure")
    for v, e in zip(lv, sh):
        ctx.shape(v, (n, *e), "samples")
    ref = jax.vmap(lambda i: pack(kind, i))(jnp.asarray(unpack(kind, s)))
    for u, v in zip(lv, jax.tree_util.tree_leaves(ref)):
        ctx.true(np.array_equal(np.asarray(u), np.asarray(v)), "parts of different proposals are mixed in one sample")


@lru_cache(None)
def disc_runner(kind, n, quantised=0, static_m=None):
    def run(key, logq, w, m):
        return rejection_sampling(key, lambda s: w[unpack(kind, s)], lambda k: pack(kind, jax.random.categorical(k, logq)), n, m)
    if not quantised:
        return jax.jit(run)
    return jax.jit(lambda *a: coarse(run, quantised, *a))


def coarse(run, bits, *args):
    """Fault injection: while `run` is traced, uniform variates are rounded down to a coarse grid of [0, 1) -- as legal
    for a generator of that range as the real one, but with a high chance of exact zeros."""
    real = jax.random.uniform

    def uniform(key, shape=(), dtype=float, minval=0.0, maxval=1.0, **kw):
        u = real(key, shape=shape, dtype=dtype, **kw)
        return minval + (maxval - minval) * jnp.floor(u * 2**bits) / 2**bits
    jax.random.uniform = uniform
    try:
        return run(*args)
    finally:
        jax.random.uniform = real


def weights(c):
    r = gen.rng(c["seed"], 1)
    q = r.uniform(0.1, 1.0, K) if c["prop"] == "nonuniform" else np.ones(K)
    w = np.round(r.uniform(0.1, 1.0, K), 2)
    w[r.random(K) < dict(some=0.4, most=0.85, none=0.0)[c["zero"]]] = 0.0
    if not w.any():
        w[int(r.integers(K))] = 0.5
    if c["flat"]:
        w = (w > 0) * 1.0
    m = w.max() * dict(tight=1.0, loose=1.7, very=6.0)[c["bound"]]
    return q / q.sum(), w * c["scale"], m * c["scale"]


wcase = dict(seed=gen.seeds, prop=gen.pick("nonuniform", "uniform"), zero=gen.pick("none", "some", "most"), flat=gen.pick(False, False, True),
             bound=gen.pick("tight", "loose", "very"), scale=gen.pick(1.0, 3.0, 0.01))
disc_cases = st.fixed_dictionaries(dict(wcase, kind=gen.pick(*STRUCT)))


def chk_disc(c, ctx):
    q, w, m = weights(c)
    key = jax.random.PRNGKey(c["seed"])
    run = disc_runner(c["kind"], N)
    s = run(key, A(np.log(q)), A(w), A(m))
    consistent(ctx, c["kind"], s, N)
    ix = np.asarray(unpack(c["kind"], s)).astype(int)
    ctx.true(((ix >= 0) & (ix < K)).all(), "not a proposal")
    ctx.true((w[ix] > 0).all(), "sample of zero density", categories=sorted(set(ix[w[ix] == 0].tolist())), density=w)
    p = q * w / (q * w).sum()
    stat_tests.chi2_counts(ctx, np.bincount(ix, minlength=K), p, "samples", density=w, proposal=q, m=m)
    for lag in (1, 2, 7):
        stat_tests.chi2_counts(ctx, np.bincount(ix[:-lag] * K + ix[lag:], minlength=K * K), np.outer(p, p).ravel(), f"pairs of samples at distance {lag}")
    half = N // 2
    stat_tests.chi2_counts(ctx, np.bincount(ix[:half] * K + ix[half:], minlength=K * K), np.outer(p, p).ravel(), "pairs of samples of the two halves")
    s2 = np.asarray(unpack(c["kind"], run(key, A(np.log(q)), A(w), A(m)))).astype(int)
    ctx.true(np.array_equal(ix, s2), "the same key gives other samples")
    s3 = np.asarray(unpack(c["kind"], run(jax.random.PRNGKey(c["seed"] + 1), A(np.log(q)), A(w), A(m)))).astype(int)
    stat_tests.chi2_counts(ctx, np.bincount(ix * K + s3, minlength=K * K), np.outer(p, p).ravel(), "samples of two keys")
    ctx.trivial((w > 0).sum() < 2)
    ctx.label(c["kind"], c["prop"], f"zeros_{c['zero']}", c["bound"], "flat" if c["flat"] else "varied")
    ctx.count(N)


zero_cases = st.fixed_dictionaries(dict(wcase, zero=gen.pick("some", "most"), kind=gen.pick("scalar", "tuple"), bits=gen.pick(1, 3)))


def chk_zero(c, ctx):
    q, w, m = weights(c)
    s = disc_runner(c["kind"], 500, c["bits"])(jax.random.PRNGKey(c["seed"]), A(np.log(q)), A(w), A(m))
    ix = np.asarray(unpack(c["kind"], s)).astype(int)
    ctx.true((w[ix] > 0).all(), "sample of zero density", categories=sorted(set(ix[w[ix] == 0].tolist())), density=w)
    ctx.trivial(not (w == 0).any())
    ctx.label(f"bits{c['bits']}", f"zeros{(w == 0).sum()}")
    ctx.count(500)


# --- continuous proposals
def _beta(a, b):
    mode = (a - 1) / (a + b - 2)
    return stats.beta(a, b), float(stats.beta(a, b).pdf(mode))


def beta_pdf(x, a, b):
    from jax.scipy.special import betaln
    xs = jnp.clip(x, 1e-30, 1.0)
    return jnp.where((x > 0) & (x < 1), jnp.exp((a - 1) * jnp.log(xs) + (b - 1) * jnp.log1p(-jnp.clip(x, 0.0, 1 - 1e-7)) - betaln(a, b)), 0.0)


@lru_cache(None)
def cont_runner(kind):
    if kind == "beta":      # uniform proposal on [-0.5, 1.5]: half of the proposals have zero density
        return jax.jit(lambda key, a, b, m: rejection_sampling(key, lambda x: beta_pdf(x, a, b), lambda k: jax.random.uniform(k, (), minval=-0.5, maxval=1.5), 2000, m))
    if kind == "laplace":   # density relative to a Laplace proposal (exp(-x^2/2) / exp(-|x|)): samples are normal
        return jax.jit(lambda key, a, b, m: rejection_sampling(key, lambda x: jnp.exp(-0.5 * x**2 + jnp.abs(x)), lambda k: jax.random.laplace(k, ()), 2000, m))
    # triangle x + y < 1 with density ~ 1 + a x
    return jax.jit(lambda key, a, b, m: rejection_sampling(key, lambda s: jnp.where(s["x"] + s["y"] < 1, 1 + a * s["x"], 0.0),
                                                           lambda k: dict(zip("xy", jax.random.uniform(k, (2,)))), 2000, m))


cont_cases = st.fixed_dictionaries(dict(seed=gen.seeds, kind=gen.pick("beta", "laplace", "triangle"), a=gen.num(1.2, 4, 1), b=gen.num(1.2, 4, 1), slack=gen.pick(1.0, 1.5)))


def chk_cont(c, ctx):
    a, b = c["a"], c["b"]
    key = jax.random.PRNGKey(c["seed"])
    run = cont_runner(c["kind"])
    if c["kind"] == "beta":
        d, m = _beta(a, b)
        x = ctx.shape(run(key, A(a), A(b), A(m * 1.001 * c["slack"])), (2000,)).astype(float)
        ctx.true(((x > 0) & (x < 1)).all(), "sample of zero density", sample=x[(x <= 0) | (x >= 1)][:1])
        stat_tests.ks(ctx, x, d.cdf, "beta samples", a=a, b=b)
    elif c["kind"] == "laplace":
        x = ctx.shape(run(key, A(a), A(b), A(np.exp(0.5) * 1.0001 * c["slack"])), (2000,)).astype(float)
        stat_tests.ks(ctx, x, stats.norm.cdf, "normal samples from a Laplace proposal")
    else:
        s = run(key, A(a), A(b), A((1 + a) * c["slack"]))
        x, y = ctx.shape(s["x"], (2000,)).astype(float), ctx.shape(s["y"], (2000,)).astype(float)
        ctx.true((x + y < 1 + 1e-6).all(), "sample of zero density")
        F = lambda t: (t - t**2 / 2 + a * (t**2 / 2 - t**3 / 3)) / (0.5 + a / 6)
        stat_tests.ks(ctx, x, F, "first coordinate", a=a)
        stat_tests.ks(ctx, y / (1 - x), lambda t: np.clip(t, 0, 1), "second coordinate given the first", a=a)
        r = np.corrcoef(x[:-1], x[1:])[0, 1]
        ctx.true(abs(r) * np.sqrt(1999) < 7.5, "consecutive samples are correlated", r=r)
    if X64:
        ctx.true(len(np.unique(x)) == len(x), "samples are repeated")
    # place in the result does not matter
    stat_tests.chi2_counts(ctx, [(x[::2] > np.median(x)).sum(), (x[::2] <= np.median(x)).sum()], [0.5, 0.5], "even places")
    ctx.label(c["kind"], f"slack{c['slack']}")
    ctx.count(2000)


# --- counts, eager and jitted calls, python number bounds
count_cases = st.fixed_dictionaries(dict(n=gen.pick(1, 2, 3, 10, 0), kind=gen.pick(*STRUCT), seed=gen.seeds, typed=st.booleans(), intm=st.booleans(), zero=st.integers(1, 63)))


def chk_count(c, ctx):
    w = np.array([(c["zero"] >> i) & 1 for i in range(K)]) * 2.0
    key = (jax.random.key if c["typed"] else jax.random.PRNGKey)(c["seed"])
    W = A(w)
    f = lambda: rejection_sampling(key, lambda s: W[unpack(c["kind"], s)], lambda k: pack(c["kind"], jax.random.randint(k, (), 0, K)), c["n"], 2 if c["intm"] else 2.0)
    s = f()
    consistent(ctx, c["kind"], s, c["n"])
    ix = np.asarray(unpack(c["kind"], s)).astype(int)
    ctx.true((w[ix] > 0).all(), "sample of zero density")
    ctx.true(np.array_equal(ix, np.asarray(unpack(c["kind"], f())).astype(int)), "the same key gives other samples")
    ctx.trivial(c["n"] == 0)
    ctx.label(f"n{c['n']}", c["kind"], "int_m" if c["intm"] else "float_m")
    ctx.count(c["n"])


# --- the real generator produces exact zeros (2^-23 per draw in single precision): brute force
brute_cases = st.fixed_dictionaries(dict(seed=gen.seeds))


@lru_cache(None)
def brute_runner():
    return jax.jit(lambda key: rejection_sampling(key, lambda i: jnp.where(i == 0, 1.0, 0.0), lambda k: jax.random.randint(k, (), 0, 1000), 50000, 1.0))


def chk_brute(c, ctx):
    i = np.asarray(brute_runner()(jax.random.PRNGKey(c["seed"])))
    ctx.true((i == 0).all(), "sample of zero density", n=int((i != 0).sum()))
    ctx.label("brute")
    ctx.count(50000)


# --- a variate that equals the density ratio up to rounding: every sample is still found (a case without result is reported)
tie_cases = st.fixed_dictionaries(dict(seed=gen.seeds, m=gen.num(0.001, 3, 4), n=gen.pick(2, 4)))


@lru_cache(None)
def tie_runner(n):
    return jax.jit(lambda key, w, m: rejection_sampling(key, lambda s: w[s], lambda k: jax.random.randint(k, (), 0, 3), n, m))


def chk_tie(c, ctx):
    key = jax.random.PRNGKey(c["seed"])
    T = np.float64 if X64 else np.float32
    m = T(c["m"])
    for i in range(c["n"]):   # the variate of the first proposal, if drawn with the third of three keys (else: some variate)
        p = T(jax.random.uniform(jax.random.split(jax.random.split(key, c["n"])[i], 3)[2]))
        for d in (-1, 0, 1):
            w = T(p * m)
            w = np.nextafter(w, T(np.inf * d)) if d else w
            s = np.asarray(tie_runner(c["n"])(key, A([w, w, 0]), A(m)))
            ctx.true((s < 2).all(), "sample of zero density")
    ctx.label(f"n{c['n']}")
    ctx.count(6)


GROUPS = [
    Group("tie", tie_cases, chk_tie, 160, 3000),
    Group("discrete", disc_cases, chk_disc, 208, 8000),
    Group("zero", zero_cases, chk_zero, 400, 8000),
    Group("continuous", cont_cases, chk_cont, 160, 4000),
    Group("counts", count_cases, chk_count, 64, 1500),
    Group("brute", brute_cases, chk_brute, 0, 8, modes=("f32",)),
]
