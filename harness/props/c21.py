"""C21: the trust-region subproblem solver returns a valid Steihaug step."""
from functools import lru_cache

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st
from jax.flatten_util import ravel_pytree

import gen
from core import Group, X64
from ev import A
from magpi.tr import steihaug

REL = 1e-8 if X64 else 1e-3
TREES = {
    "vec1": lambda z: z, "vec2": lambda z: z, "vec4": lambda z: z, "vec6": lambda z: z, "scalar": lambda z: z[0],
    "tuple4": lambda z: (z[:3], z[3]), "dict6": lambda z: dict(b=z[:2], a=[z[2:].reshape(2, 2)]), "mat4": lambda z: z.reshape(2, 2),
    "mixed41": lambda z: dict(b=z[:40].reshape(8, 5), a=z[40]),
}
SIZE = dict(vec1=1, vec2=2, vec4=4, vec6=6, scalar=1, tuple4=4, dict6=6, mat4=4, mixed41=41)


def hess(r, n, kind):
    """Symmetric matrix with prescribed spectrum."""
    Q, _ = np.linalg.qr(r.normal(size=(n, n)))
    lam = np.exp(r.uniform(np.log(0.05), np.log(20), n))
    if kind == "indef":
        lam = lam * r.choice([-1.0, 1.0], n)
    elif kind == "neg":
        lam = -lam
    elif kind == "singular":
        lam[r.integers(0, n, max(1, n // 2))] = 0.0
    elif kind == "multiple":
        lam[:] = lam[0]
        if n > 2:
            lam[-1] = lam[0] * 5
    elif kind == "hard":  # many conjugate gradient iterations
        lam = np.exp(r.permutation(np.linspace(np.log(1e-2), np.log(1e3), n)))
    elif kind == "zero":
        lam[:] = 0.0
    H = (Q * lam) @ Q.T
    return (H + H.T) / 2, lam


def flat(t):
    return np.concatenate([np.ravel(np.asarray(v, float)) for v in jax.tree_util.tree_leaves(t)])


@lru_cache(None)
def runner(tree, maxiter, unroll, loop_jit):
    mk = TREES[tree]

    def run(g, H, radius, eps):
        gt = mk(g)
        _, un = ravel_pytree(gt)
        hvp = lambda p: un(H @ ravel_pytree(p)[0])
        kw = {} if maxiter is None else dict(maxiter=maxiter)
        return steihaug(gt, hvp, radius, eps, unroll=unroll, jit=loop_jit, **kw)
    return jax.jit(run) if loop_jit else run


cases = st.fixed_dictionaries(dict(tree=gen.pick(*TREES), kind=gen.pick("pd", "pd", "indef", "neg", "singular", "multiple", "zero", "hard"), radius=gen.pick(1e-3, 0.05, 0.3, 1.0, 4.0, 50.0, 1e3),
                                   eps=gen.pick(1e-6, 1e-4, 1e-2, 0.3, 3.0), maxiter=gen.pick(None, None, 1, 2, 3, 30), gscale=gen.pick(1e-3, 0.1, 1.0, 1.0, 30.0, 1e3), hscale=gen.pick(1.0, 1.0, 1.0, 1e-3, 1e3), seed=gen.seeds,
                                   style=gen.pick("while", "while", "while", "while", "unroll", "nojit"), eig=gen.pick(False, False, False, True)))


def reference(g, H, R, eps, maxiter):
    """numpy Steihaug; returns (p, iterations, reason, margin): margin = distance of the decisions from their thresholds."""
    z, r = np.zeros_like(g), g.copy()
    d = -r
    margin = abs(np.linalg.norm(r) / eps - 1)
    if np.linalg.norm(r) < eps:
        return z, 0, "interior", margin
    for k in range(maxiter):
        Hd = H @ d
        curv = d @ Hd
        margin = min(margin, abs(curv) / (d @ d) / (np.abs(H).max() + 1e-300))
        bound = lambda: z + d * (-(z @ d) + np.sqrt(max((z @ d) ** 2 - (d @ d) * (z @ z - R * R), 0.0))) / (d @ d)
        if curv <= 0:
            return bound(), k + 1, "curvature", margin
        a = (r @ r) / curv
        zn = z + a * d
        margin = min(margin, abs(np.linalg.norm(zn) / R - 1))
        if np.linalg.norm(zn) >= R:
            return bound(), k + 1, "boundary", margin
        rn = r + a * Hd
        z = zn
        margin = min(margin, abs(np.linalg.norm(rn) / eps - 1))
        if np.linalg.norm(rn) < eps:
            return z, k + 1, "interior", margin
        d = -rn + d * (rn @ rn) / (r @ r)
        r = rn
    return z, maxiter, "limit", margin


def chk(c, ctx):
    n = SIZE[c["tree"]]
    r = gen.rng(c["seed"])
    H, lam = hess(r, n, c["kind"])
    H = H * c["hscale"]
    g = r.normal(size=n) * c["gscale"]
    if c["eig"]:  # gradient along few eigenvectors
        w, V = np.linalg.eigh(H)
        g = V[:, int(r.integers(n))] * c["gscale"]
    if c["kind"] == "zero":
        H = H * 0
    R, eps, maxiter = c["radius"], c["eps"], c["maxiter"]
    if not X64:
        eps = max(eps, 1e-3 * (1 + c["gscale"]))
        g, H = np.float32(g).astype(float), np.float32(H).astype(float)
    unroll, lj = dict(unroll=(True, True), nojit=(True, False))[c["style"]] if c["style"] != "while" else (False, True)
    if unroll and (maxiter is None or maxiter > 3):
        maxiter = 3
    res = runner(c["tree"], maxiter, unroll, lj)(A(g), A(H), A(R), A(eps))
    g = flat(TREES[c["tree"]](g))  # order of the ravelled tree, in which H acts
    lim = 10 * n if maxiter is None else maxiter
    p = flat(res.p)
    ctx.true(jax.tree_util.tree_structure(res.p) == jax.tree_util.tree_structure(TREES[c["tree"]](g)), "step has another structure than the gradient")
    ctx.true(len(p) == n, "step has another size than the gradient")
    ctx.finite(p, "step")
    s = np.linalg.norm(p)
    q = lambda p: g @ p + 0.5 * p @ H @ p
    gn = np.linalg.norm(g)
    it, conv = int(res.iter_num), bool(res.converged)
    # trust region
    ctx.true(s <= R * (1 + max(REL, 1e-6)), "step leaves the trust region", step=s, radius=R)
    ctx.close(res.step_length, s, REL * 10, "reported step length", scale=s + 1e-12)
    on = s >= R * (1 - (1e-6 if X64 else 1e-5))
    off = s < R * (1 - 1e-3)
    if R >= 1e-3 and (on or off):
        ctx.true(bool(res.limit_step) == on, "boundary flag does not describe the step", flag=bool(res.limit_step), step=s, radius=R)
    ctx.true(0 <= it <= lim, "iteration count exceeds its limit", got=it, limit=lim)
    ctx.close(res.eps, eps, REL, "reported tolerance", scale=eps)
    # decrease
    qs = abs(g @ p) + abs(p @ H @ p) + 1e-300
    if gn < eps * (1 - REL):
        ctx.true(s == 0 and it == 0, "step although the gradient meets the tolerance", step=s, it=it)
        ctx.trivial()
    elif gn > eps * (1 + REL):
        ctx.true(it >= 1, "no iteration although the gradient exceeds the tolerance")
        curv = g @ H @ g
        tau = R / gn if curv <= 0 else min(gn**2 / curv, R / gn)
        cauchy = q(-tau * g)
        slack = (1e-8 if X64 else 1e-3) * (abs(cauchy) + qs)
        ctx.true(q(p) <= cauchy + slack, "less decrease than the Cauchy point", got=q(p), cauchy=cauchy)
    res_n = np.linalg.norm(g + H @ p)
    rs = gn + np.abs(H).sum() * s
    if conv and off:
        ctx.true(res_n <= eps * (1 + 1e-6) + 100 * ctx.eps * rs, "interior step does not solve the Newton system to the tolerance", residual=res_n, eps=eps)
        ctx.true(abs(float(res.norm_r) - res_n) <= 1000 * ctx.eps * rs + 1e-6 * res_n, "reported residual differs from the residual of the step", got=float(res.norm_r), expected=res_n)
    if not conv:
        ctx.true(it == lim, "stopped early without convergence", it=it, limit=lim)
    if it < lim and gn > eps * (1 + REL):
        ctx.true(conv, "stopped before the limit but reports no convergence")
        ctx.true(on or res_n <= eps * (1 + 1e-6) + 100 * ctx.eps * rs, "stopped neither on the boundary nor at the tolerance", step=s, radius=R, residual=res_n, eps=eps)
    # exact conjugate gradient history where no decision is borderline
    ref, k, why, margin = reference(g, H, R, eps, lim)
    ctx.label(c["kind"], c["tree"], why, c["style"], f"maxiter_{c['maxiter']}")
    ctx.count(1)
    if X64 and margin > 1e-3 and k <= min(n, 8):
        ctx.label("compared_with_reference")
        ctx.true(it == k, "iteration count differs from the conjugate gradient history", got=it, expected=k, why=why)
        ctx.close(p, ref, 1e-6, "step differs from the Steihaug step", scale=np.linalg.norm(ref) + 1e-12, why=why)
        ctx.true(conv == (why != "limit"), "convergence flag", got=conv, why=why)


pair_cases = st.fixed_dictionaries(dict(tree=gen.pick("tuple4", "dict6", "mat4"), kind=gen.pick("pd", "indef", "singular"), radius=gen.pick(0.3, 1.0, 4.0, 50.0), seed=gen.seeds,
                                        eps=gen.pick(1e-4, 1e-2)))


def chk_flat(c, ctx):
    """Same step for the pytree and the flattened problem (identical arithmetic up to rounding)."""
    n = SIZE[c["tree"]]
    r = gen.rng(c["seed"])
    H, _ = hess(r, n, c["kind"])
    g = r.normal(size=n)
    gt = jax.tree_util.tree_map(np.asarray, TREES[c["tree"]](g))
    # order of the ravelled tree
    perm = flat(TREES[c["tree"]](np.arange(n))).astype(int)
    Ht = H[np.ix_(perm, perm)]
    a = runner(c["tree"], None, False, True)(A(g), A(Ht), A(c["radius"]), A(c["eps"]))
    b = runner(f"vec{n}", None, False, True)(A(g[perm]), A(Ht), A(c["radius"]), A(c["eps"]))
    _, k, why, margin = reference(g[perm], Ht, c["radius"], c["eps"], 10 * n)
    if margin < (1e-4 if X64 else 0.05) or k > n:
        ctx.trivial()
        return
    t = 1e-6 if X64 else 2e-2
    ctx.close(flat(a.p), flat(b.p), t, "pytree step differs from the flattened problem's", scale=np.linalg.norm(flat(b.p)) + 1e-12)
    ctx.true(int(a.iter_num) == int(b.iter_num), "pytree iteration count differs")
    ctx.label(c["tree"], why)
    ctx.count(1)


GROUPS = [
    Group("step", cases, chk, 2400, 60000),
    Group("pytree", pair_cases, chk_flat, 320, 8000),
]
