"""Property-based testing core shared by all checks.

A check is a set of *groups*.  A group is (strategy, check): the Hypothesis strategy generates a
JSON-able case (every random choice is inside the strategy, or derived from an integer drawn by it),
``check(case, ctx)`` runs the real code from /repo on it and compares with an oracle, raising
``Violation``.  Cases being plain data, a shrunk failing case is written to a replay file and can be
re-run without Hypothesis (``run.py C01 --replay FILE``).
"""
import hashlib
import json
import os
import sys
import time
import traceback

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
X64 = os.environ.get("JAX_ENABLE_X64", "1") not in ("0", "false", "False")


# informs strategies that keep a small pool of configurations per process (each one costs a compilation)
TIER = os.environ.get("HARNESS_TIER", "quick")
SHARD = int(os.environ.get("HARNESS_SHARD", "0"))
SEED = int(os.environ.get("HARNESS_SEED", "1"))


class Violation(Exception):
    """The code under test broke the property on this case."""


class HarnessError(Exception):
    """The harness itself is at fault (never a violation)."""


class Skip(Exception):
    """The case is outside the domain of the property (counted, never silently dropped)."""


class Group:
    def __init__(self, name, strategy, check, quick, thorough, modes=("x64", "f32"), rule=""):
        self.name, self.strategy, self.check = name, strategy, check
        self.n = dict(quick=quick, thorough=thorough)
        self.modes, self.rule = modes, rule


class Ctx:
    """Handed to every check; collects labels and does the comparisons."""

    def __init__(self):
        self.labels = {}
        self.points = 0
        self.x64 = X64
        self.eps = float(np.finfo(np.float64 if X64 else np.float32).eps)
        self._nontrivial = True

    # --- bookkeeping
    def start(self):
        self._nontrivial = True

    def label(self, *names):
        for n in names:
            n = str(n)
            self.labels[n] = self.labels.get(n, 0) + 1

    def trivial(self, cond=True):
        if cond:
            self._nontrivial = False

    def count(self, n):
        self.points += int(n)

    # --- tolerances
    def tol(self, x64=1e-9, f32=2e-3):
        return x64 if self.x64 else f32

    # --- oracles
    def fail(self, what, /, **info):
        msg = what
        if info:
            msg += " | " + ", ".join(f"{k}={_short(v)}" for k, v in info.items())
        raise Violation(msg)

    def true(self, cond, what, /, **info):
        if not bool(cond):
            self.fail(what, **info)

    def arr(self, a, what="result"):
        try:
            return np.asarray(a)
        except Exception as e:  # not an array at all
            self.fail(f"{what}: not an array ({type(a).__name__}: {e})")

    def shape(self, a, shape, what="result"):
        a = self.arr(a, what)
        if tuple(a.shape) != tuple(shape):
            self.fail(f"{what}: wrong shape", got=a.shape, expected=tuple(shape))
        return a

    def finite(self, a, what="result", **info):
        a = self.arr(a, what)
        if not np.all(np.isfinite(a)):
            self.fail(f"{what}: not finite", got=a, **info)
        return a

    def close(self, got, expected, tol, what="result", scale=None, check_shape=True, **info):
        """|got-expected| <= tol * (scale or 1+|expected|), same shape, no NaN."""
        got = self.arr(got, what)
        expected = np.asarray(expected)
        if check_shape and tuple(got.shape) != tuple(expected.shape):
            self.fail(f"{what}: wrong shape", got=got.shape, expected=expected.shape, **info)
        g = got.astype(np.complex128 if np.iscomplexobj(got) else np.float64)
        e = expected.astype(np.complex128 if np.iscomplexobj(expected) else np.float64)
        s = 1.0 + np.abs(e) if scale is None else np.asarray(scale, dtype=np.float64)
        with np.errstate(all="ignore"):
            bad = ~(np.abs(g - e) <= tol * s)
        if np.any(bad):
            bad = np.broadcast_to(bad, np.broadcast_shapes(np.shape(g), np.shape(e)))
            i = tuple(int(k) for k in np.argwhere(bad)[0])
            gb, eb = np.broadcast_to(g, bad.shape), np.broadcast_to(e, bad.shape)
            self.fail(f"{what}: mismatch", index=i, got=gb[i], expected=eb[i], tol=tol,
                      n_bad=int(bad.sum()), **info)
        return got


def _short(v, n=400):
    try:
        s = np.array2string(np.asarray(v), precision=10, threshold=20) if not isinstance(v, (str, dict)) else str(v)
    except Exception:
        s = repr(v)
    s = s.replace("\n", " ")
    return s if len(s) <= n else s[:n] + "..."


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def chash(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()[:16]


CURRENT = dict(case=None)  # the case in progress, watched by run.py for cases that never end


FATAL = (MemoryError, KeyboardInterrupt, SystemExit, HarnessError)


def run_case(group, case, ctx):
    """Runs one case. Returns None (held / skipped) or a violation message."""
    ctx.start()
    CURRENT.update(case=case, group=group.name, cpu=time.process_time(), wall=time.time())
    try:
        group.check(case, ctx)
        return None
    except Violation as e:
        return str(e)
    except Skip:
        ctx.trivial()
        ctx.label("skipped")
        return None
    except FATAL:
        raise
    except (OSError, ImportError) as e:
        raise HarnessError(f"{type(e).__name__}: {e}") from e
    except Exception as e:
        text = str(e)
        if "RESOURCE_EXHAUSTED" in text or "out of memory" in text.lower():
            raise HarnessError(text) from e
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/magpi/" in f.filename] or tb[-1:]
        f = where[-1]
        return (f"valid input raised {type(e).__name__}: {_short(text, 300)} "
                f"(at {os.path.basename(f.filename)}:{f.name})")
    finally:
        CURRENT["case"] = None


def seed_for(*parts):
    h = hashlib.sha256("|".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], "big")


def run_group(prop, group, tier, seed, shard, n, deadline, ctx, mode):
    """Generates n cases with Hypothesis. Returns a result dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    res = dict(group=group.name, evaluations=0, distinct=set(), samples=[], violation=None,
               truncated=False, skipped=0)
    st = dict(best=None, t_fail=None)

    @hypothesis.seed(seed_for(seed, prop, group.name, shard))
    @settings(max_examples=n, database=None, deadline=None, derandomize=False,
              phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
              print_blob=False, suppress_health_check=list(HealthCheck), verbosity=hypothesis.Verbosity.quiet)
    @given(group.strategy)
    def t(case):
        now = time.time()
        if st["t_fail"] is None:
            if now > deadline:
                res["truncated"] = True
                return
        else:
            # shrinking: bounded by wall clock, the best case found so far keeps failing
            if now - st["t_fail"] > 60 and canon(case) != st["best"][0]:
                return
        msg = run_case(group, case, ctx)
        if st["t_fail"] is None:
            res["evaluations"] += 1
            if ctx._nontrivial:
                h = chash(case)
                if h not in res["distinct"]:
                    res["distinct"].add(h)
                    if len(res["samples"]) < 3 and len(canon(case)) < 1500:
                        res["samples"].append(case)
        if msg is not None:
            if st["t_fail"] is None:
                st["t_fail"] = now
            st["best"] = (canon(case), case, msg)
            raise Violation(msg)

    try:
        t()
    except FATAL:
        raise
    except Exception as e:
        if st["best"] is None:
            raise HarnessError(f"{group.name}: {type(e).__name__}: {e}") from e
        # Violation or Flaky: the recorded failing case decides; confirm it outside Hypothesis
    if st["best"] is not None:
        _, case, msg = st["best"]
        again = [run_case(group, case, ctx) for _ in range(2)]
        res["violation"] = dict(property=prop, group=group.name, mode=mode, tier=tier, seed=seed,
                                shard=shard, case=case, message=msg,
                                reproduced=all(m is not None for m in again))
    return res
