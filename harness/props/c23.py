"""C23: ODE integration follows the scheme on any time grid."""
from functools import lru_cache

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import gen
from core import Group, X64
from ev import A
from magpi.ode import explicit_euler, odeint, rk4

TOL = 1e-10 if X64 else 5e-4
NS = [1, 2, 3, 6, 25]


def heun(df, y, t, dt, *args):
    """a user supplied scheme"""
    k1 = df(y, t, *args)
    k2 = df(jax.tree_util.tree_map(lambda a, b: a + dt * b, y, k1), t + dt, *args)
    return jax.tree_util.tree_map(lambda a, b, c: a + dt / 2 * (b + c), y, k1, k2)


# --- numpy (complex capable) reference on the flattened state
def np_rk4(f, y, t, dt):
    k1 = f(y, t)
    k2 = f(y + dt / 2 * k1, t + dt / 2)
    k3 = f(y + dt / 2 * k2, t + dt / 2)
    k4 = f(y + dt * k3, t + dt)
    return y + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)


def np_euler(f, y, t, dt):
    return y + dt * f(y, t)


def np_heun(f, y, t, dt):
    k1 = f(y, t)
    return y + dt / 2 * (k1 + f(y + dt * k1, t + dt))


METHODS = {"rk4": (rk4, np_rk4), "default": (None, np_rk4), "euler": (explicit_euler, np_euler), "user": (heun, np_heun)}
STATES = {
    "scalar": (1, lambda z: z[0]), "vec": (3, lambda z: z), "mat": (4, lambda z: z.reshape(2, 2)),
    "tuple": (3, lambda z: (z[:2], z[2])), "dict": (4, lambda z: dict(b=z[:1], a=[z[1:3], z[3]])),
}


def rhs(xp, z, t, a, W, b):
    """non-autonomous nonlinear field on the flattened state (ravelled order)"""
    return W @ xp.sin(z + b * t) + a * z * xp.cos(t) - 0.1 * a * z + t * b


@lru_cache(None)
def runner(state, method, args, unroll, auto):
    from jax.flatten_util import ravel_pytree
    n, mk = STATES[state]

    def run(z0, ts, a, W, b):
        y0 = mk(z0)
        _, un = ravel_pytree(y0)

        def df(y, t, *p):
            aa, Wb = (p[0], p[1]) if p else (a, (W, b))
            return un(rhs(jnp, ravel_pytree(y)[0], t, aa, *Wb))
        extra = (a, (W, b)) if args == "args" else ()
        kw = {}
        if METHODS[method][0] is not None:
            kw["method"] = METHODS[method][0]
        if unroll is not None:
            kw["unroll"] = unroll
        return odeint(df, y0, ts, *extra, **kw)
    return run, jax.jit(run)


grid = dict(n=gen.pick(*NS), dir=gen.pick("inc", "dec", "zigzag"), t0=gen.num(-2, 3, 2), uniform=st.booleans(), seed=gen.seeds, span=gen.pick("normal", "normal", "long", "tiny"))


def times(c, limit=True):
    r = gen.rng(c["seed"], 5)
    n = c["n"] if c.get("span", "normal") != "long" else min(c["n"], 2 if limit else c["n"])
    dt = np.full(n, 0.1) if c["uniform"] else np.round(r.uniform(0.01, 0.4, n), 3)
    if c["n"] > 6:
        dt = dt / 4
    if X64 or not limit:  # long steps magnify rounding
        dt = dt * {"normal": 1.0, "long": 12.0, "tiny": 0.01}[c.get("span", "normal")]
    if c["dir"] == "dec":
        dt = -dt
    elif c["dir"] == "zigzag":
        dt = dt * r.choice([-1.0, 1.0, 0.0], n)
    return np.concatenate([[c["t0"]], c["t0"] + np.cumsum(dt)])


def params(c, n):
    r = gen.rng(c["seed"], 6)
    return np.round(r.uniform(-1, 1, n), 3), np.round(r.uniform(-1, 1), 2), np.round(r.uniform(-1, 1, (n, n)), 2), np.round(r.uniform(-1, 1, n), 2)


def ref_traj(method, z0, ts, f):
    out = [z0]
    for i in range(len(ts) - 1):
        out.append(METHODS[method][1](f, out[-1], ts[i], ts[i + 1] - ts[i]))
    return np.array(out)


def flat_traj(y, k):
    return np.concatenate([np.asarray(v, float).reshape(k, -1) for v in jax.tree_util.tree_leaves(y)], 1)


cases = st.fixed_dictionaries(dict(grid, state=gen.pick(*STATES), method=gen.pick(*METHODS), args=gen.pick("closure", "args"), unroll=gen.pick(None, 1, 2, 4), jit=gen.pick(True, True, False)))


def ravelled(state, z):
    return np.concatenate([np.ravel(v) for v in jax.tree_util.tree_leaves(STATES[state][1](z))])


def chk(c, ctx):
    n, mk = STATES[c["state"]]
    ts = times(c)
    z, a, W, b = params(c, n)
    run, jrun = runner(c["state"], c["method"], c["args"], c["unroll"], None)
    y = (jrun if c["jit"] else run)(A(z), A(ts), A(a), A(W), A(b))
    y0 = mk(z)
    ctx.true(jax.tree_util.tree_structure(y) == jax.tree_util.tree_structure(y0), "trajectory has another structure than the state")
    for u, v in zip(jax.tree_util.tree_leaves(y), jax.tree_util.tree_leaves(y0)):
        ctx.shape(u, (len(ts), *np.shape(v)), "trajectory")
    zr = ravelled(c["state"], z)
    got = flat_traj(y, len(ts))
    ctx.close(got[0], zr, 4 * ctx.eps, "trajectory does not start at the initial value", scale=1.0)
    ref = ref_traj(c["method"], zr, ts, lambda y, t: rhs(np, y, t, a, W, b))
    ctx.close(got, ref, TOL, f"trajectory ({c['method']})", scale=1 + np.abs(ref).max())
    ctx.label(c["state"], c["method"], c["dir"], c["args"], f"unroll{c['unroll']}", f"steps{c['n']}", "uniform" if c["uniform"] else "nonuniform")
    ctx.count(len(ts))


poly_cases = st.fixed_dictionaries(dict(grid, deg=st.integers(0, 3), method=gen.pick("rk4", "euler", "user")))


@lru_cache(None)
def poly_runner(method):
    return jax.jit(lambda y0, ts, C: odeint(lambda y, t: jnp.stack([C @ t ** jnp.arange(4), y[0] * 0 + 1.0]), y0, ts, method=METHODS[method][0]))


def chk_poly(c, ctx):
    """Right-hand sides polynomial in time are integrated exactly up to the order of the scheme."""
    ts = times(c, False)
    deg = min(c["deg"], dict(rk4=3, user=1, euler=0)[c["method"]])
    C = np.where(np.arange(4) <= deg, gen.rng(c["seed"], 8).integers(-8, 9, 4) / 4, 0.0)
    y = np.asarray(poly_runner(c["method"])(A([1.0, -2.0]), A(ts), A(C)), float)
    F = lambda t: sum(C[k] * t ** (k + 1) / (k + 1) for k in range(4))
    ctx.close(y[:, 0], 1.0 + F(ts) - F(ts[0]), TOL, f"time polynomial of degree {deg} ({c['method']})", scale=1 + np.abs(C).sum() * (1 + np.abs(ts).max()) ** 4)
    ctx.close(y[:, 1], -2.0 + ts - ts[0], TOL, "unit speed component", scale=1 + np.abs(ts).max())
    ctx.label(f"deg{deg}", c["method"], c["dir"])
    ctx.count(len(ts))


@lru_cache(None)
def order_runner(method):
    kw = dict(method=METHODS[method][0]) if METHODS[method][0] else {}
    # y' = a y + w cos(w t) - a sin(w t): solution sin(wt) + (y0 - sin(w t0)) e^{a (t-t0)}; autonomous oscillator alongside
    return jax.jit(lambda y0, ts, a, w: odeint(lambda y, t: jnp.stack([a * y[0] + w * jnp.cos(w * t) - a * jnp.sin(w * t), w * y[2], -w * y[1]]), y0, ts, **kw))


order_cases = st.fixed_dictionaries(dict(a=gen.num(-1.5, 1, 2), w=gen.num(0.5, 2, 2), t0=gen.num(-2, 2, 2), T=gen.signed(0.5, 2, 2), y0=gen.num(-1, 1, 2), method=gen.pick("default", "rk4", "user", "euler")))


def chk_order(c, ctx):
    a, w, t0, T = c["a"], c["w"], c["t0"], c["T"]
    order = dict(default=4, rk4=4, user=2, euler=1)[c["method"]]
    err = []
    for n in (16, 32, 64):
        ts = np.linspace(t0, t0 + T, n + 1)
        y = np.asarray(order_runner(c["method"])(A([c["y0"], 0.5, 1.0]), A(ts), A(a), A(w)), float)
        e0 = np.sin(w * ts) + (c["y0"] - np.sin(w * t0)) * np.exp(a * (ts - t0))
        ph = w * (ts - t0)
        e1, e2 = 0.5 * np.cos(ph) + np.sin(ph), np.cos(ph) - 0.5 * np.sin(ph)
        err.append([np.abs(y[:, 0] - e0).max(), max(np.abs(y[:, 1] - e1).max(), np.abs(y[:, 2] - e2).max())])
    h = abs(T) / 16
    L = abs(a) + w + 1
    amp = np.exp((abs(a) + 0.2) * abs(T)) * (3 + abs(c["y0"]))
    floor = 1e-12 if X64 else 3e-5
    for k in (0, 1):
        ctx.true(err[0][k] <= 2 * amp * L * abs(T) * (L * h) ** order + floor, "error larger than the order of the scheme allows", err=err[0][k], component=k, method=c["method"])
        if err[0][k] > 1e4 * floor:
            ctx.true(err[2][k] <= max(err[0][k], err[1][k] * 2**order) * (2 if order == 1 else 5) / 4**order + floor, "error does not shrink with the order of the scheme",
                     errors=[e[k] for e in err], method=c["method"])
            ctx.label("ratio_checked")
    ctx.label(c["method"], "forward" if T > 0 else "backward")
    ctx.count(48)


grad_cases = st.fixed_dictionaries(dict(grid, state=gen.pick("vec", "dict", "tuple"), method=gen.pick("rk4", "euler", "user"), args=gen.pick("closure", "args"), ad=gen.pick("fwd", "rev"), unroll=gen.pick(None, 2)))


@lru_cache(None)
def grad_runner(state, method, args, unroll, ad):
    run, _ = runner(state, method, args, unroll, None)

    def loss(z, ts, a, W, b):
        y = run(z, ts, a, W, b)
        return sum(jnp.sum(jnp.sin(v + 0.3) * jnp.arange(1, v.shape[0] + 1).reshape(-1, *[1] * (v.ndim - 1))) for v in jax.tree_util.tree_leaves(y))
    J = jax.jacfwd if ad == "fwd" else jax.jacrev
    return jax.jit(J(loss, argnums=(0, 2, 4)))


def chk_grad(c, ctx):
    n = STATES[c["state"]][0]
    ts = times(c)
    z, a, W, b = params(c, n)
    gz, ga, gb = grad_runner(c["state"], c["method"], c["args"], c["unroll"], c["ad"])(A(z), A(ts), A(a), A(W), A(b))
    perm = ravelled(c["state"], np.arange(n)).astype(int)

    def loss(z, a, b):
        y = ref_traj(c["method"], z[perm], ts, lambda y, t: rhs(np, y, t, a, W, b))
        return (np.sin(y + 0.3) * np.arange(1, len(ts) + 1)[:, None]).sum()
    h = 1e-30
    ez = np.array([loss(z + 1j * h * np.eye(n)[i], a, b).imag / h for i in range(n)])
    ea = loss(z.astype(complex), a + 1j * h, b).imag / h
    eb = np.array([loss(z.astype(complex), a, b + 1j * h * np.eye(n)[i]).imag / h for i in range(n)])
    s = 1 + max(np.abs(ez).max(), abs(ea), np.abs(eb).max())
    ctx.close(gz, ez, TOL * 10, f"derivative by the initial state ({c['ad']})", scale=s)
    ctx.close(ga, ea, TOL * 10, f"derivative by a parameter ({c['ad']})", scale=s)
    ctx.close(gb, eb, TOL * 10, f"derivative by a parameter vector ({c['ad']})", scale=s)
    ctx.label(c["ad"], c["state"], c["method"])
    ctx.count(1)


# scheme functions on their own
single_cases = st.fixed_dictionaries(dict(seed=gen.seeds, t=gen.num(-2, 2, 2), dt=st.one_of(gen.signed(0.01, 0.6, 2), gen.signed(0.6, 6, 2)), method=gen.pick("rk4", "euler"), state=gen.pick("vec", "dict"), rec=st.booleans()))


def chk_single(c, ctx):
    n, mk = STATES[c["state"]]
    z, a, W, b = params(c, n)
    from jax.flatten_util import ravel_pytree
    y0 = jax.tree_util.tree_map(A, mk(z))
    un = ravel_pytree(y0)[1]
    seen = []

    def df(y, t, k):
        seen.append(float(t))
        return un(k * rhs(jnp, ravel_pytree(y)[0], t, a, A(W), A(b)))
    y = METHODS[c["method"]][0](df, y0, c["t"], c["dt"], 1.5)
    zr = ravelled(c["state"], z)
    e = METHODS[c["method"]][1](lambda y, t: 1.5 * rhs(np, y, t, a, W, b), zr, c["t"], c["dt"])
    ctx.close(flat_traj(jax.tree_util.tree_map(lambda v: v[None], y), 1)[0], e, TOL, f"one step of {c['method']}", scale=5.0 * (1 + max(0.0, abs(c["dt"]) - 0.6)) ** 4)
    lo, hi = sorted((c["t"], c["t"] + c["dt"]))
    ctx.true(min(seen) >= lo - 1e-5 and max(seen) <= hi + 1e-5, "right-hand side evaluated outside the step", times=seen)
    ctx.label(c["method"], c["state"])
    ctx.count(1)


GROUPS = [
    Group("scheme", cases, chk, 400, 8000),
    Group("poly", poly_cases, chk_poly, 480, 10000),
    Group("order", order_cases, chk_order, 320, 8000),
    Group("grad", grad_cases, chk_grad, 96, 2000),
    Group("single", single_cases, chk_single, 160, 4000),
]
