"""C24: mini-batching partitions data without loss, mixing or repetition."""
import math
from functools import lru_cache

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import gen
import stat_tests
from core import Group, SEED, SHARD, TIER
from magpi.utils import tree_dim
from magpi.opt import axis_size, batches_with_replacement, batches_without_replacement, make_iterator

tl = jax.tree_util.tree_leaves
# every leaf is tagged with the sample index, so alignment is visible
TREES = {
    "vec": lambda i: i * 1.0,
    "mat": lambda i: jnp.stack([i * 1.0, 100.0 + i], -1),
    "tuple": lambda i: (i * 1.0, jnp.stack([200.0 + i] * 3, -1)),
    "dict": lambda i: dict(x=jnp.stack([i * 1.0, -1.0 * i], -1), y=(300 + i, jnp.broadcast_to((i + 0.5)[:, None, None], (i.shape[0], 2, 2)))),
    "one": lambda i: [i],
}


def untag(kind, B, ctx, lead):
    """indices from a batched tree; all leaves must carry the same sample"""
    if kind == "vec":
        ix, rest = B, []
    elif kind == "mat":
        ix, rest = B[..., 0], [B[..., 1] - 100]
    elif kind == "tuple":
        ix, rest = B[0], [B[1][..., k] - 200 for k in range(3)]
        ctx.shape(B[1], (*lead, 3), "tuple leaf")
    elif kind == "dict":
        ix, rest = B["x"][..., 0], [-B["x"][..., 1], B["y"][0] - 300, B["y"][1][..., 0, 0] - 0.5, B["y"][1][..., 1, 1] - 0.5]
        ctx.shape(B["y"][1], (*lead, 2, 2), "dict leaf")
    else:
        ix, rest = B[0], []
    ix = ctx.shape(ix, lead, "batched leaf").astype(float)
    for r in rest:
        ctx.true(np.array_equal(ctx.shape(r, lead, "batched leaf").astype(float), ix), "leaves of one batch hold different samples", indices=ix, other=np.asarray(r))
    return ix.astype(int)


def same_struct(ctx, a, b):
    ctx.true(jax.tree_util.tree_structure(a) == jax.tree_util.tree_structure(b), "batches have another structure than the data")
    ctx.true([x.dtype for x in tl(a)] == [x.dtype for x in tl(b)], "batches have another dtype than the data")


def key_of(seed, typed=False):
    return jax.random.key(seed) if typed else jax.random.PRNGKey(seed)


def kdata(k):
    try:
        return tuple(np.asarray(jax.random.key_data(k)).ravel().tolist())
    except TypeError:
        return tuple(np.asarray(k).ravel().tolist())


_r = gen.rng(SEED, SHARD, 24)
_some = lambda xs, k: st.sampled_from(sorted(int(v) for v in (xs if TIER != "quick" else _r.choice(xs, k, replace=False))))
# a few lengths and sizes per process (each pair is compiled once); all of them over the shards and in the thorough tier
base = dict(n=_some([2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 16, 17, 20, 1, 31, 50, 100, 257], 7), size=_some([2, 3, 4, 1, 5, 6, 7, 8, 10, 16, 21, 32], 5), tree=gen.pick(*TREES), seed=gen.seeds, typed=st.booleans())
wo_cases = st.fixed_dictionaries(dict(base, jit=gen.pick(False, False, True)))


@lru_cache(None)
def wo_jit(size):
    return jax.jit(lambda k, X: batches_without_replacement(k, X, size))


def chk_wo(c, ctx):
    n, size = c["n"], c["size"]
    X = TREES[c["tree"]](jnp.arange(n))
    key = key_of(c["seed"], c["typed"])
    f = wo_jit(size) if c["jit"] else (lambda k, X: batches_without_replacement(k, X, size))
    B = f(key, X)
    same_struct(ctx, B, X)
    ix = untag(c["tree"], B, ctx, (n // size, size))
    ctx.true(((0 <= ix) & (ix < n)).all(), "samples that are not in the data", indices=ix)
    ctx.true(len(set(ix.ravel().tolist())) == ix.size, "a sample is used twice", indices=ix)
    # only the key decides the arrangement
    ix2 = untag(c["tree"], f(key, X), ctx, (n // size, size))
    ctx.true(np.array_equal(ix, ix2), "the same key gives different batches")
    v = np.asarray(batches_without_replacement(key, jnp.arange(n) + 7, size)).astype(int) - 7
    ctx.true(np.array_equal(ix, v), "the arrangement depends on the data, not only on the key")
    ctx.trivial(n < 2 or size > n)
    ctx.label(c["tree"], "exact" if n % size == 0 else "remainder" if size < n else "too_large", "jit" if c["jit"] else "eager")
    ctx.count(ix.size)


_many = [int(_r.choice([12, 20, 33, 64]))]
wr_cases = st.fixed_dictionaries(dict(base, batches=gen.pick(2, 3, 1, 7, 0, *_many), rep=gen.pick(True, False, None), size=_some([2, 3, 5, 8, 1, 13, 20, 21], 4)))


def chk_wr(c, ctx):
    n, size, nb = c["n"], c["size"], c["batches"]
    X = TREES[c["tree"]](jnp.arange(n))
    key = key_of(c["seed"], c["typed"])
    kw = {} if c["rep"] is None else dict(replace_within_batch=c["rep"])
    if c["rep"] is False and size > n:
        try:
            B = batches_with_replacement(key, X, nb, size, **kw)
        except Exception:
            ctx.label("impossible_rejected")
            return
        ctx.true(nb == 0, "a batch larger than the data without repeats was not rejected", n=n, size=size)
        return
    B = batches_with_replacement(key, X, nb, size, **kw)
    same_struct(ctx, B, X)
    ix = untag(c["tree"], B, ctx, (nb, size))
    ctx.true(((0 <= ix) & (ix < n)).all(), "samples that are not in the data", indices=ix)
    if c["rep"] is False:
        for r in ix:
            ctx.true(len(set(r.tolist())) == size, "a batch without repeats repeats a sample", batch=r)
    ix2 = untag(c["tree"], batches_with_replacement(key, X, nb, size, **kw), ctx, (nb, size))
    ctx.true(np.array_equal(ix, ix2), "the same key gives different batches")
    if nb > 1 and (size * math.log(n) > 30 if c["rep"] is not False else math.lgamma(n + 1) - math.lgamma(n - size + 1) > 30):
        ctx.true(len({tuple(r) for r in ix.tolist()}) == nb, "different batches are identical", indices=ix)
        other = untag(c["tree"], batches_with_replacement(key_of(c["seed"] + 1, c["typed"]), X, nb, size, **kw), ctx, (nb, size))
        ctx.true(not (other == ix).all(1).any(), "another key gives the same batch")
        ctx.label("distinct_batches_checked")
    ctx.trivial(n < 2 or nb == 0)
    ctx.label(c["tree"], f"rep_{c['rep']}", f"batches{nb}")
    ctx.count(ix.size)


# --- uniformity over many keys
STAT = [("wo", 5, 2), ("wo", 4, 1), ("wo", 4, 4), ("wo", 7, 3), ("wr", 5, 3), ("wr", 3, 4), ("wn", 5, 3), ("wn", 4, 4)]
stat_cases = st.fixed_dictionaries(dict(conf=gen.pick(*STAT), seed=gen.seeds))


@lru_cache(None)
def stat_runner(kind, n, size):
    X = jnp.arange(n)
    if kind == "wo":
        f = lambda k: batches_without_replacement(k, X, size)
    else:
        f = lambda k: batches_with_replacement(k, X, 3, size, kind == "wr")
    return jax.jit(lambda key: jax.vmap(f)(jax.random.split(key, 3000)))


def chk_stat(c, ctx):
    kind, n, size = c["conf"]
    B = np.asarray(stat_runner(kind, n, size)(jax.random.PRNGKey(c["seed"]))).reshape(3000, -1)
    m = B.shape[1]
    for j in range(m):
        stat_tests.chi2_uniform(ctx, B[:, j], n, f"place {j} of the batches")
    for j, k in [(a, b) for a in range(m) for b in range(a)][:30]:
        same_batch = j // size == k // size
        exclusive = kind == "wo" or (kind == "wn" and same_batch)
        pair = B[:, j] * n + B[:, k]
        allowed = [a * n + b for a in range(n) for b in range(n) if a != b or not exclusive]
        stat_tests.chi2_cells(ctx, pair, allowed, f"pair of places {(j, k)}")
    ctx.label(kind, f"n{n}")
    ctx.count(3000)


# --- the iterator
it_cases = st.fixed_dictionaries(dict(seed=gen.seeds, typed=st.booleans(), epochs=st.integers(0, 5), add=gen.pick(True, False, None), tree=gen.pick(*TREES),
                                      nb=st.lists(st.integers(0, 4), min_size=5, max_size=5), size=st.integers(1, 3), fn=gen.pick("fake", "wo", "wr"), n=st.integers(14, 16)))


def chk_it(c, ctx):
    key = key_of(c["seed"], c["typed"])
    keys, produced = [], []

    def batch_fn(k):
        e = len(keys)
        keys.append(kdata(k))
        if c["fn"] == "fake":
            nb = c["nb"][e]
            B = TREES[c["tree"]](1000 * (e + 1) + jnp.arange(nb * c["size"]))
            B = jax.tree_util.tree_map(lambda v: v.reshape(nb, c["size"], *v.shape[1:]), B)
        elif c["fn"] == "wo":
            B = batches_without_replacement(k, TREES[c["tree"]](jnp.arange(c["n"])), c["size"])
        else:
            B = batches_with_replacement(k, TREES[c["tree"]](jnp.arange(c["n"])), c["nb"][e], c["size"])
        produced.append(B)
        return B
    kw = {} if c["add"] is None else dict(add_rng=c["add"])
    out = list(make_iterator(key, c["epochs"], batch_fn, **kw))
    ctx.true(len(keys) == c["epochs"], "batch function not called once per epoch", calls=len(keys), epochs=c["epochs"])
    subs = []
    if c["add"]:
        for o in out:
            ctx.true(isinstance(o, tuple) and len(o) == 2, "with add_rng the iterator has to yield (key, batch)")
        subs = [kdata(o[0]) for o in out]
        for o in out:
            ctx.true(o[0].dtype == key.dtype and o[0].shape == key.shape, "handed out key is not a key")
            jax.random.split(o[0])  # usable
        out = [o[1] for o in out]
    expected = [jax.tree_util.tree_map(lambda v: v[i], B) for B in produced for i in range(tl(B)[0].shape[0])]
    ctx.true(len(out) == len(expected), "not every batch of every epoch is yielded exactly once", got=len(out), expected=len(expected))
    for i, (a, b) in enumerate(zip(out, expected)):
        ctx.true(jax.tree_util.tree_structure(a) == jax.tree_util.tree_structure(b), "batch has another structure")
        for u, v in zip(tl(a), tl(b)):
            ctx.true(u.shape == v.shape and np.array_equal(np.asarray(u), np.asarray(v)), "batches out of order or changed", index=i, got=np.asarray(u), expected=np.asarray(v))
    ctx.true(len(set(keys)) == len(keys), "two epochs get the same random key", keys=keys)
    ctx.true(len(set(subs)) == len(subs), "two batches get the same random key")
    ctx.true(not set(subs) & set(keys), "a batch gets the key its epoch was sampled with")
    ctx.true(kdata(key) not in keys + subs, "the caller's key is handed out again")
    if c["fn"] == "wo":
        ix = [untag(c["tree"], B, ctx, (c["n"] // c["size"], c["size"])).ravel().tolist() for B in produced]
        ctx.true(len({tuple(v) for v in ix}) == len(ix), "two epochs use the same order")
    # deterministic in the key, independent between keys
    k1 = list(keys)
    keys.clear(), produced.clear()
    out2 = list(make_iterator(key, c["epochs"], batch_fn, **kw))
    ctx.true(keys == k1 and (not c["add"] or [kdata(o[0]) for o in out2] == subs), "the same key gives another history")
    keys.clear(), produced.clear()
    out3 = list(make_iterator(key_of(c["seed"] + 1, c["typed"]), c["epochs"], batch_fn, **kw))
    ctx.true(not set(keys) & set(k1), "another key leads to the same epoch keys")
    if c["add"]:
        ctx.true(not {kdata(o[0]) for o in out3} & set(subs), "another key leads to the same batch keys")
    ctx.trivial(c["epochs"] == 0)
    ctx.label(c["fn"], f"add_{c['add']}", f"epochs{c['epochs']}", c["tree"])
    ctx.count(len(expected))


# --- mismatched data
bad_cases = st.fixed_dictionaries(dict(n=st.integers(2, 12), other=st.integers(1, 13), where=gen.pick("first", "middle", "last", "nested"), fn=gen.pick("wo", "wr", "it", "axis", "dim"), seed=gen.seeds))


def chk_bad(c, ctx):
    n, o = c["n"], c["other"]
    mk = lambda where: {"first": lambda k: (jnp.zeros(k), jnp.zeros((n, 2)), jnp.zeros(n)), "middle": lambda k: (jnp.zeros(n), jnp.zeros((k, 2)), jnp.zeros(n)),
                        "last": lambda k: [jnp.zeros(n), jnp.zeros((n, 3)), jnp.zeros(k)], "nested": lambda k: dict(a=jnp.zeros((n, 2)), b=dict(c=(jnp.zeros(n), jnp.zeros((k, 1)))))}[where]
    key = jax.random.PRNGKey(c["seed"])

    def run(X):
        if c["fn"] == "wo":
            return batches_without_replacement(key, X, 1)
        if c["fn"] == "wr":
            return batches_with_replacement(key, X, 2, 1)
        if c["fn"] == "it":
            return list(make_iterator(key, 1, lambda k: X))
        if c["fn"] == "dim":
            r = tree_dim(X)
            ctx.true(r == n, "tree_dim", got=r, n=n)
            return r
        r = axis_size(X)
        ctx.true(r == n, "axis_size", got=r, n=n)
        return r
    run(mk(c["where"])(n))
    if n != o:
        try:
            run(mk(c["where"])(o))
        except Exception:
            pass
        else:
            ctx.fail("data whose leaves disagree in length was accepted", n=n, other=o, fn=c["fn"])
    ctx.trivial(n == o)
    ctx.label(c["fn"], c["where"])
    ctx.count(1)


GROUPS = [
    Group("wo", wo_cases, chk_wo, 640, 12000),
    Group("wr", wr_cases, chk_wr, 400, 8000),
    Group("stat", stat_cases, chk_stat, 96, 2000),
    Group("iterator", it_cases, chk_it, 240, 5000),
    Group("mismatch", bad_cases, chk_bad, 240, 5000),
]
