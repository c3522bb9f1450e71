"""Shared Hypothesis strategies (all produce JSON-able data)."""
import numpy as np
from hypothesis import strategies as st

from core import SEED, SHARD


def num(lo, hi, dec=3):
    """Decimal numbers in [lo, hi]: exact zeros, ties and integers are common, values shrink well."""
    k = 10 ** dec
    return st.integers(int(round(lo * k)), int(round(hi * k))).map(lambda i: i / k)


def special(lo, hi, specials, dec=3):
    s = [v for v in specials if lo <= v <= hi]
    return st.one_of(num(lo, hi, dec), st.sampled_from(s)) if s else num(lo, hi, dec)


def signed(lo, hi, dec=3):
    """lo <= |v| <= hi, both signs."""
    return st.tuples(num(lo, hi, dec), st.booleans()).map(lambda t: t[0] if t[1] else -t[0])


def vec(n, lo=-3, hi=3, dec=3):
    return st.lists(num(lo, hi, dec), min_size=n, max_size=n)


def vec_nz(n, lo=-3, hi=3, dec=2, minnorm=0.2):
    """A vector of norm >= minnorm (constructed, not filtered)."""
    def fix(v):
        v = list(v)
        if float(np.linalg.norm(v)) < minnorm:
            v[0] += 1.0
        return v
    return vec(n, lo, hi, dec).map(fix)


# Hypothesis starts every search from the smallest value: shift it so that shards and runs start from different seeds
_base = int.from_bytes(__import__("hashlib").sha256(f"{SEED}|{SHARD}".encode()).digest()[:4], "big")
seeds = st.integers(0, 2 ** 31 - 1).map(lambda s: (s + _base) % 2 ** 31)


def rng(seed, *salt):
    return np.random.default_rng([int(seed), *map(int, salt)])


def pick(*xs):
    return st.sampled_from(list(xs))


def partition(min_nodes=2, max_nodes=6, lo=-3, hi=3):
    """Strictly increasing, non-uniform nodes."""
    return st.tuples(num(lo, hi, 2), st.lists(num(0.05, 1.5, 2), min_size=min_nodes - 1, max_size=max_nodes - 1)).map(
        lambda t: [round(float(v), 6) for v in np.concatenate([[t[0]], t[0] + np.cumsum(t[1])])])
