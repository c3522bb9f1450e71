"""C22: trust-region iterations never lose ground and report their true state."""
from functools import lru_cache

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st
from jax.flatten_util import ravel_pytree
from jaxopt import OptStep

import gen
from core import SEED, SHARD, TIER, Group, X64
from ev import A
from magpi.opt import TR

EPS = float(np.finfo(np.float64 if X64 else np.float32).eps)
TREES = {"vec": lambda z: z, "dict": lambda z: dict(b=z[:1], a=(z[1:3].reshape(1, 2), z[3])), "tuple": lambda z: (z[0], z[1:])}
N = 4
FLAV = ["plain", "aux", "vag", "vag_aux"]
RHOS = {"default": {}, "strict": dict(rho_accept=0.25, rho_decrease=0.5, rho_increase=0.9), "loose": dict(rho_accept=0.0, rho_decrease=0.1, rho_increase=0.6),
        "gap": dict(rho_accept=0.05, rho_decrease=0.4, rho_increase=0.75)}


def flat(t):
    return np.concatenate([np.ravel(np.asarray(v, float)) for v in jax.tree_util.tree_leaves(t)])


def unflat(tree, z):
    """z is in ravelled order"""
    _, un = ravel_pytree(TREES[tree](jnp.zeros(N)))
    return un(A(z))


def value(p, D):
    z = ravel_pytree(p)[0]
    f = 0.5 * z @ D["Q"] @ z + D["b"] @ z + 0.25 * D["c"] * jnp.sum(z**4) + D["s"] * jnp.sum(jnp.sin(D["W"] @ z))
    # defined only inside a box (mu > 0); log of a negative number is NaN
    return f - D["mu"] * jnp.sum(jnp.log(jnp.where(D["mu"] > 0, D["lim"] - z, 1.0)))


def aux_of(p, D):
    z = ravel_pytree(p)[0]
    return dict(n=2 * jnp.sum(z), m=(z[0] * D["s"],))


def np_eval(z, D):
    a = D["W"] @ z
    f = 0.5 * z @ D["Q"] @ z + D["b"] @ z + 0.25 * D["c"] * (z**4).sum() + D["s"] * np.sin(a).sum()
    g = D["Q"] @ z + D["b"] + D["c"] * z**3 + D["s"] * D["W"].T @ np.cos(a)
    H = D["Q"] + np.diag(3 * D["c"] * z**2) - D["s"] * D["W"].T @ (np.sin(a)[:, None] * D["W"])
    if D["mu"] > 0:
        y = D["lim"] - z
        if (y <= 0).any():
            return np.nan, np.full(len(z), np.nan), np.full((len(z), len(z)), np.nan)
        f, g, H = f - D["mu"] * np.log(y).sum(), g + D["mu"] / y, H + np.diag(D["mu"] / y**2)
    return f, g, H


def barrier_scale(z, D):
    """Rounding of lim - z, relative to the distance that remains"""
    if D["mu"] == 0:
        return 0.0
    y = np.maximum(np.abs(D["lim"] - z), 1e-12)
    return (np.abs(np.log(y)) + (1 + np.abs(z)) / y).sum()


def fscale(z, D):
    return 1 + np.abs(z) @ np.abs(D["Q"]) @ np.abs(z) + np.abs(D["b"]) @ np.abs(z) + D["c"] * (z**4).sum() + abs(D["s"]) * 3 + D["mu"] * barrier_scale(z, D)


def objective(flav):
    fun = (lambda p, D: (value(p, D), aux_of(p, D))) if "aux" in flav else value
    if "vag" in flav:
        return lambda p, D: jax.value_and_grad(fun, has_aux="aux" in flav)(p, D)
    return fun


def build(flav, args, approx, damped, mst, rho, cfg, **more):
    f = objective(flav)
    fun = (lambda p, *, D: f(p, D)) if args == "kw" else f
    kw = dict(RHOS[rho])
    if damped:
        kw["damping_factor"] = cfg["damp"]
    if approx:
        kw.update(approx_hvp=True, fd_h=cfg["fdh"])
    if mst is not None:
        kw["maxiter_steihaug"] = mst
    return TR(fun, value_and_grad="vag" in flav, has_aux="aux" in flav, init_tr_radius=cfg["init"], max_tr_radius=cfg["max"], min_tr_radius=cfg["min"],
              increase_factor=cfg["inc"], decrease_factor=cfg["dec"], tol=cfg["tol"], forcing_parameter=cfg["forcing"], **kw, **more)


@lru_cache(None)
def runner(flav, args, approx, damped, mst, rho):
    pk = (lambda D: ((), dict(D=D))) if args == "kw" else (lambda D: ((D,), {}))

    def init(p, cfg, D):
        a, k = pk(D)
        return build(flav, args, approx, damped, mst, rho, cfg).init_state(p, *a, **k)

    def init_from(p, state, cfg, D):
        a, k = pk(D)
        return build(flav, args, approx, damped, mst, rho, cfg).init_state(OptStep(p, state), *a, **k)

    def step(p, state, cfg, D):
        a, k = pk(D)
        return build(flav, args, approx, damped, mst, rho, cfg).update(p, state, *a, **k)

    def run(p, maxiter, cfg, D):
        a, k = pk(D)
        return build(flav, args, approx, damped, mst, rho, cfg, maxiter=maxiter).run(p, *a, **k)

    def resume(p, state, maxiter, cfg, D):
        a, k = pk(D)
        return build(flav, args, approx, damped, mst, rho, cfg, maxiter=maxiter).run(OptStep(p, state), *a, **k)
    return dict(init=jax.jit(init), init_from=jax.jit(init_from), step=jax.jit(step), run=jax.jit(run), resume=jax.jit(resume))


problem = dict(kind=gen.pick("convex", "indef", "wavy", "quartic", "steep", "barrier"), seed=gen.seeds, x0=gen.pick(0.3, 1.0, 3.0), fs=gen.pick(1.0, 1.0, 1.0, 1e-2, 100.0))
config = dict(init=gen.pick(0.05, 0.5, 1.0, 3.0), mx=gen.pick(1.0, 2.0, 4.0), mn=gen.pick(1e-6, 1e-4, 0.02, 0.3), inc=gen.pick(1.5, 2.0, 3.0), dec=gen.pick(0.1, 0.25, 0.5),
              tol=gen.pick(1e-2, 1e-4, 1e-6), forcing=gen.pick(0.5, 1.0), damp=gen.pick(0.0, 0.1, 1.0), fdh=gen.pick(1.0, 1.0, 30.0))
STATIC = dict(tree=list(TREES), flav=FLAV, args=["pos", "kw"], approx=[False, False, False, True], damped=[False, False, True], mst=[None, None, 1, 2], rho=list(RHOS))


def pool(n):
    """A few static configurations per process (every one is compiled once), different in every shard and for every seed."""
    r = gen.rng(SEED, SHARD, 77)
    return [{k: v[int(r.integers(len(v)))] for k, v in STATIC.items()} for _ in range(n)]


n_pool = 5 if TIER == "quick" else 40


def with_static(d, n):
    return st.tuples(st.fixed_dictionaries(d), gen.pick(*pool(n))).map(lambda t: dict(t[0], **t[1]))


def setup(c):
    r = gen.rng(c["seed"])
    Qm, _ = np.linalg.qr(r.normal(size=(N, N)))
    lam = np.exp(r.uniform(np.log(0.2), np.log(8), N))
    cc, s, W, mu, lim = 0.0, 0.0, r.normal(size=(3, N)), 0.0, 1.0
    if c["kind"] == "indef":
        lam, cc = lam * r.choice([-1.0, 1.0], N), 1.0
    elif c["kind"] == "wavy":
        s, W = 2.0, W * 3
    elif c["kind"] == "quartic":
        lam, cc = lam * 0.1, 2.0
    elif c["kind"] == "barrier" and not c.get("approx"):
        mu = 0.3
    elif c["kind"] == "steep":
        s, W = 4.0, W * 12
    Q = (Qm * lam) @ Qm.T
    f = lambda v: np.asarray(v, np.float64 if X64 else np.float32).astype(float)
    fs = c.get("fs", 1.0)  # scale of the objective
    Q, cc, s, mu = Q * fs, cc * fs, s * fs, mu * fs
    D = dict(Q=f((Q + Q.T) / 2), b=f(r.normal(size=N) * (6 if mu else 1) * fs), c=f(cc), s=f(s), W=f(W), mu=f(mu), lim=f(lim))
    cfg = dict(init=min(c["init"], c["mx"]), max=c["mx"], min=c["mn"], inc=c["inc"], dec=c["dec"], tol=max(c["tol"], 1e-6 if X64 else 1e-3), forcing=c["forcing"], damp=c["damp"],
               fdh=float(np.float32((1e-5 if X64 else 1e-3) * c.get("fdh", 1.0))))
    if cfg["init"] <= cfg["min"] and c["seed"] % 4:
        cfg["init"] = cfg["min"] * 1.5
    cfg["max"] = max(cfg["max"], cfg["init"])
    z0 = f(r.normal(size=N) * c["x0"])
    if mu:
        z0 = f(np.minimum(z0, lim - 0.1))
    J = lambda t: {k: A(v) for k, v in t.items()}
    return D, cfg, z0, J(D), J(cfg)


def key(c):
    return c["flav"], c["args"], c["approx"], c["damped"], c["mst"], c["rho"]


def rho_par(c):
    d = dict(rho_accept=0.25, rho_decrease=0.25, rho_increase=0.75)
    d.update(RHOS[c["rho"]])
    return d


def leaves_equal(a, b):
    return all(np.array_equal(np.asarray(x), np.asarray(y), equal_nan=True) for x, y in zip(jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)))


def check_reported(ctx, c, z, S, D, where):
    """value, gradient, error and aux belong to z"""
    f, g, _ = np_eval(z, D)
    sc = fscale(z, D)
    t = (1e-10 if X64 else 1e-4)
    gs = 1 + np.abs(D["Q"]).sum() * (1 + np.abs(z).max()) + D["c"] * 4 * (np.abs(z) ** 3).max() + abs(D["s"]) * np.abs(D["W"]).sum() * (1 + np.abs(D["W"]).sum() * np.abs(z).max())
    if D["mu"] > 0:
        y = np.abs(D["lim"] - z).min()
        gs += D["mu"] / y * (1 + (1 + np.abs(z).max()) / y)
    ctx.close(S.value, f, t, f"{where}: value does not belong to the parameters", scale=sc * 10)
    ctx.close(flat(S.grad), g, t, f"{where}: gradient does not belong to the parameters", scale=gs * 10)
    ctx.close(S.error, np.linalg.norm(flat(S.grad)), t, f"{where}: error is not the gradient norm", scale=np.linalg.norm(g) + 1e-12 * gs + EPS)
    if "aux" in c["flav"]:
        ctx.true(isinstance(S.aux, dict) and set(S.aux) == {"n", "m"}, f"{where}: auxiliary output lost", got=str(S.aux))
        ctx.close(S.aux["n"], 2 * z.sum(), t, f"{where}: auxiliary output does not belong to the parameters", scale=10 * (1 + np.abs(z).sum()))
        ctx.close(S.aux["m"][0], z[0] * D["s"], t, f"{where}: auxiliary output does not belong to the parameters", scale=10 * (1 + abs(z[0] * D["s"])))
    else:
        ctx.true(S.aux is None, f"{where}: unexpected auxiliary output", got=str(S.aux))


def check_step(ctx, c, z, S, z1, S1, D, cfg, rp):
    r0, r1 = float(S.tr_radius), float(S1.tr_radius)
    fr = np.float64 if X64 else np.float32
    if r0 <= fr(cfg["min"]):
        ctx.true(np.array_equal(z, z1), "exhausted radius moved the parameters", before=z, after=z1)
        ctx.true(leaves_equal(S, S1), "exhausted radius changed the state")
        ctx.label("frozen")
        return
    R = S1.subproblem_result
    p = flat(R.p)
    ctx.finite(p, "step")
    s = np.linalg.norm(p)
    f, g, H = np_eval(z, D)
    ctx.true(int(S1.iter_num) == int(S.iter_num) + 1, "iteration count", before=int(S.iter_num), after=int(S1.iter_num))
    ctx.true(s <= r0 * (1 + 1e-5), "step longer than the trust radius", step=s, radius=r0)
    acc = bool(S1.accepted)
    exp = z + p if acc else z
    ctx.close(z1, exp, 4 * EPS, "parameters are not the accepted (or kept) ones", scale=np.abs(z).max() + s + 1, accepted=acc)
    if not acc:
        ctx.true(np.array_equal(z, z1), "rejected step moved the parameters")
    check_reported(ctx, c, z1, S1, D, "after update")
    f1 = np_eval(z1, D)[0]
    sc = fscale(z, D) + fscale(z + p, D)
    ctx.true(f1 <= f + 50 * EPS * sc, "objective increased", before=f, after=f1)
    # reported rho
    rho = float(S1.rho)
    h = cfg["fdh"]
    Hp = H @ p
    slack = 50 * EPS * (sc + (abs(g @ p) + np.abs(p) @ np.abs(H) @ np.abs(p)))
    if c["approx"]:
        Hfd = (np_eval(z + h * p, D)[1] - g) / h
        slack += 2 * abs(p @ (Hfd - Hp)) + 200 * EPS / h * (np.abs(g).sum() + np.abs(H).sum() + np.abs(D["Q"]).sum() * np.abs(z).sum() + abs(D["s"]) * np.abs(D["W"]).sum() * 3) * np.abs(p).max()
    den = -(g @ p + 0.5 * p @ Hp)
    num = f - np_eval(z + p, D)[0]
    failed = False
    if s == 0:
        ctx.true(np.linalg.norm(g) <= float(R.eps) * (1 + 1e-6) + 100 * EPS * sc, "no step although the gradient exceeds the tolerance", g=np.linalg.norm(g), eps=float(R.eps))
        ctx.true(not acc, "an empty step was accepted")
        ctx.label("zero_step")
    else:
        edge = D["mu"] > 0 and np.abs(D["lim"] - z - p).min() < 1e-5 * (1 + np.abs(z).max() + s)  # borderline: defined or not
        if not np.isfinite(num):
            ctx.true(edge or (not acc and not rho >= rp["rho_decrease"]), "a step to where the objective is undefined was not treated as a failure", rho=rho, accepted=acc)
            failed = not edge
            ctx.label("undefined_trial")
        elif den < -4 * slack:  # the (inexact) model predicts an increase
            ctx.true(not acc and not rho >= rp["rho_decrease"], "a step without predicted reduction was not treated as a failure", rho=rho, accepted=acc)
            failed = True
            ctx.label("no_predicted_reduction")
        elif slack < 1e-3 * abs(den) and not edge:
            e = num / den
            dr = (1 + abs(e)) * slack / abs(den) * 2 + 1e-6
            ctx.true(abs(rho - e) <= dr * 2, "rho is not actual over predicted reduction", got=rho, expected=e)
            if abs(e - rp["rho_accept"]) > 2 * dr:
                ctx.true(acc == (e >= rp["rho_accept"]), "acceptance contradicts the reduction ratio", rho=e, accepted=acc)
            # sufficient decrease of the subproblem (damped if requested)
            a = cfg["damp"] if c["damped"] else 0.0
            Hd = H + a * np.eye(N)
            gn, curv = np.linalg.norm(g), g @ Hd @ g
            tau = r0 / gn if curv <= 0 else min(gn**2 / curv, r0 / gn)
            q = lambda v: g @ v + 0.5 * v @ Hd @ v
            tolq = (1e-6 if X64 else 1e-2) * (abs(q(p)) + abs(q(-tau * g))) + 4 * slack
            if not c["approx"]:
                ctx.true(q(p) <= q(-tau * g) + tolq, "step decreases the model less than the Cauchy point", got=q(p), cauchy=q(-tau * g))
        ctx.true(acc == (rho >= rp["rho_accept"]), "accepted flag contradicts the reported rho", rho=rho, accepted=acc)
        ctx.label("accepted" if acc else "rejected")
    # radius
    mx, mn, inc, dec = (float(fr(cfg[k])) for k in ("max", "min", "inc", "dec"))
    ctx.true(mn * (1 - 1e-6) <= r1 <= mx * (1 + 1e-6), "radius leaves its limits", got=r1, limits=(mn, mx))
    lim = abs(s - r0) <= 1e-6 * r0 if X64 else abs(s - r0) <= 3e-6 * r0
    clear = lim or s < r0 * (1 - 1e-3)
    t = 1e-6
    if failed or rho < rp["rho_decrease"]:
        ctx.close(r1, max(r0 * dec, mn), t, "radius after a poor step", scale=r0)
        ctx.label("shrunk")
    elif rho > rp["rho_increase"] and clear and lim:
        ctx.close(r1, max(min(r0 * inc, mx), mn), t, "radius after a very good boundary step", scale=mx)
        ctx.label("grown" if r1 > r0 else "capped")
    elif clear or not rho > rp["rho_increase"]:
        ctx.close(r1, max(r0, mn), t, "radius after an ordinary step", scale=r0, rho=rho)


history_cases = with_static(dict(problem, **config, steps=st.integers(3, 14)), n_pool)


def chk_history(c, ctx):
    D, cfg, z, Dj, cj = setup(c)
    R = runner(*key(c))
    rp = rho_par(c)
    p = unflat(c["tree"], z)
    S = R["init"](p, cj, Dj)
    check_reported(ctx, c, z, S, D, "initial state")
    ctx.close(S.tr_radius, cfg["init"], 1e-6, "initial radius", scale=cfg["init"])
    ctx.true(int(S.iter_num) == 0 and not bool(S.accepted), "initial state claims progress")
    st0 = jax.tree_util.tree_structure(p)
    for k in range(c["steps"]):
        p1, S1 = R["step"](p, S, cj, Dj)
        ctx.true(jax.tree_util.tree_structure(p1) == st0, "structure of the parameters changed")
        z1 = flat(p1)
        check_step(ctx, c, z, S, z1, S1, D, cfg, rp)
        p, S, z = p1, S1, z1
        ctx.count(1)
    # warm start: keeps counting, keeps a usable radius, re-evaluates at the parameters
    W = R["init_from"](p, S, cj, Dj)
    ctx.true(int(W.iter_num) == int(S.iter_num), "resumed iteration count", got=int(W.iter_num), expected=int(S.iter_num))
    fr = np.float64 if X64 else np.float32
    want = cfg["init"] if float(S.tr_radius) <= fr(cfg["min"]) else float(S.tr_radius)
    ctx.close(W.tr_radius, want, 1e-6, "resumed radius", scale=want)
    check_reported(ctx, c, z, W, D, "resumed state")
    ctx.label(c["kind"], c["flav"], c["tree"], "args_" + c["args"], "approx" if c["approx"] else "exact", "damped" if c["damped"] else "undamped", "rho_" + c["rho"])


run_cases = with_static(dict(problem, **config, maxiter=st.integers(1, 40)), 2 if TIER == "quick" else 12)


def chk_run(c, ctx):
    D, cfg, z, Dj, cj = setup(c)
    R = runner(*key(c))
    p0 = unflat(c["tree"], z)
    p, S = R["run"](p0, jnp.asarray(c["maxiter"]), cj, Dj)
    # the same history by hand
    q, T = p0, R["init"](p0, cj, Dj)
    for k in range(c["maxiter"]):
        q, T = R["step"](q, T, cj, Dj)
        if not float(T.error) > float(np.asarray(cj["tol"])):
            break
    zf = flat(p)
    check_reported(ctx, c, zf, S, D, "result of run")
    sm = 1 + np.abs(zf).max()
    if X64:
        ctx.close(zf, flat(q), 1e-7, "run differs from iterating update", scale=sm)
        ctx.true(int(S.iter_num) == int(T.iter_num), "iterations of run differ from iterating update", got=int(S.iter_num), expected=int(T.iter_num))
    fr = np.float64 if X64 else np.float32
    err, rad, it = float(S.error), float(S.tr_radius), int(S.iter_num)
    ctx.true(it <= c["maxiter"], "more iterations than allowed", got=it, limit=c["maxiter"])
    ended = [n for n, b in (("tolerance", err <= fr(cfg["tol"])), ("limit", it == c["maxiter"]), ("radius", rad <= fr(cfg["min"]))) if b]
    ctx.true(ended, "run ended without a reason", error=err, tol=cfg["tol"], it=it, radius=rad)
    ctx.true(np_eval(zf, D)[0] <= np_eval(z, D)[0] + 100 * EPS * (fscale(z, D) + fscale(zf, D)), "run ended above its start")
    # resuming continues
    p2, S2 = R["resume"](p, S, jnp.asarray(3), cj, Dj)
    z2 = flat(p2)
    check_reported(ctx, c, z2, S2, D, "resumed run")
    ctx.true(it <= int(S2.iter_num) <= it + 3, "resumed run does not continue counting", before=it, after=int(S2.iter_num))
    ctx.true(np_eval(z2, D)[0] <= np_eval(zf, D)[0] + 100 * EPS * (fscale(z2, D) + fscale(zf, D)), "resumed run lost ground")
    ctx.label(*["ended_" + e for e in ended], c["kind"], c["flav"])
    ctx.count(it)


flavour_cases = st.fixed_dictionaries(dict(problem, **config, mst=gen.pick(*([None] if TIER == "quick" else [None, 2])), steps=st.integers(2, 6)))


def chk_flavours(c, ctx):
    """Every way of supplying the objective gives the same history."""
    D, cfg, z, Dj, cj = setup(c)
    ref = None
    for fl, ar, tr in (("plain", "pos", "vec"), ("aux", "kw", "vec"), ("vag", "pos", "vec"), ("vag_aux", "kw", "vec"), ("plain", "kw", "dict")):
        R = runner(fl, ar, False, False, c["mst"], "default")
        p = unflat(tr, z)
        S = R["init"](p, cj, Dj)
        hist = []
        for k in range(c["steps"]):
            p, S = R["step"](p, S, cj, Dj)
            hist.append(np.concatenate([flat(p), [float(S.value), float(S.error), float(S.tr_radius)], flat(S.grad)]))
        hist = np.array(hist)
        if ref is None:
            ref = hist
        else:
            ok = np.abs(hist - ref) <= (1e-7 if X64 else 1e-2) * (1 + np.abs(ref).max())
            ctx.true(ok.all(), f"history of {fl}/{ar}/{tr} differs from the plain objective's", first=int(np.argmax(~ok.all(1))))
    ctx.label(c["kind"])
    ctx.count(5 * c["steps"])


cb_cases = st.fixed_dictionaries(dict(problem, **config, maxiter=st.integers(1, 8), jit=st.booleans(), implicit=st.booleans()))


def chk_callback(c, ctx):
    """The solver as users build it: plain floats, callback, direct run."""
    D, cfg, z, Dj, cj = setup(c)
    if cfg["init"] <= cfg["min"]:
        cfg["init"] = cfg["min"] * 1.5
    seen = []
    S = TR(lambda p: value(p, Dj), init_tr_radius=cfg["init"], max_tr_radius=cfg["max"], min_tr_radius=cfg["min"], tol=cfg["tol"], maxiter=c["maxiter"], maxiter_steihaug=3,
           jit=c["jit"], implicit_diff=c["implicit"], callback=lambda s: seen.append(jax.tree_util.tree_map(np.array, s)))
    p, T = S.run(A(z))
    jax.effects_barrier()
    ctx.true(len(seen) >= 1, "callback was never called")
    ctx.true(len(seen) == int(T.iter_num), "callback not called once per iteration", calls=len(seen), iterations=int(T.iter_num))
    prev = np.inf
    for k, s in enumerate(sorted(seen, key=lambda s: int(s.state.iter_num))):
        ctx.true(int(s.state.iter_num) == k + 1, "callback iteration numbers", got=int(s.state.iter_num))
        zz = flat(s.params)
        check_reported(ctx, dict(flav="plain"), zz, s.state, D, "callback")
        f = np_eval(zz, D)[0]
        ctx.true(f <= prev + 50 * EPS * 2 * fscale(zz, D), "objective increased between callbacks")
        prev = f
    ctx.true(np.allclose(flat(p), zz), "last callback is not the result")
    ctx.label("jit" if c["jit"] else "nojit", c["kind"])
    ctx.count(len(seen))


def chk_implicit(c, ctx):
    """Implicit derivative of the solution by the arguments of a strictly convex quadratic objective."""
    r = gen.rng(c["seed"])
    B = r.normal(size=(3, 3))
    Q = B @ B.T + np.eye(3)
    b = r.normal(size=3)

    def sol(b, Q):
        f = lambda p, b, Q: 0.5 * p @ Q @ p + b @ p
        return TR(f, tol=1e-9, maxiter=60, init_tr_radius=2.0, max_tr_radius=10.0, min_tr_radius=1e-12).run(jnp.zeros(3), b, Q).params
    ctx.close(sol(A(b), A(Q)), -np.linalg.solve(Q, b), 1e-6, "minimizer", scale=5.0)
    ctx.close(jax.jit(jax.jacrev(sol))(A(b), A(Q)), -np.linalg.inv(Q), 1e-5, "derivative of the minimizer", scale=5.0)
    ctx.label("implicit")
    ctx.count(1)


def chk_params(c, ctx):
    """An acceptance threshold above the shrink threshold is rejected (would stall)."""
    try:
        TR(lambda p: jnp.sum(p**2), rho_accept=c["dec"] + c["gap"], rho_decrease=c["dec"])
    except ValueError:
        pass
    else:
        ctx.fail("rho_accept above rho_decrease was accepted", **c)
    TR(lambda p: jnp.sum(p**2), rho_accept=c["dec"], rho_decrease=c["dec"])
    ctx.count(1)


GROUPS = [
    Group("history", history_cases, chk_history, 480, 6000),
    Group("run", run_cases, chk_run, 96, 2000),
    Group("flavours", flavour_cases, chk_flavours, 80, 2000),
    Group("callback", cb_cases, chk_callback, 16, 320),
    Group("implicit", st.fixed_dictionaries(dict(seed=gen.seeds)), chk_implicit, 6, 60, modes=("x64",)),
    Group("params", st.fixed_dictionaries(dict(dec=gen.num(0.05, 0.5, 2), gap=gen.num(0.01, 0.4, 2))), chk_params, 40, 200),
]
