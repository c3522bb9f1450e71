"""C30: numerical procedures compile, vectorise and are differentiable in all their numeric inputs."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st
from jax.flatten_util import ravel_pytree

import gen
from core import Group, SHARD, TIER, X64
from ev import A
from magpi import calc, integrate as I, model as M, ode, r_fun, spline, surface_integral as S
from props.c29 import agree

TOL = 1e-10 if X64 else 2e-4
f2 = lambda x, p: jnp.sin(p[0] * x[0] + x[1]) + p[1] * x[0] * x[1] ** 2 + jnp.exp(-x @ x)
f3 = lambda x, p: f2(x[:2], p) + x[2] * p[0] * x[0] + jnp.cos(x[2])
v2 = lambda x, p: jnp.stack([f2(x, p), f2(x[::-1], p[::-1])])
v3 = lambda x, p: jnp.stack([f3(x, p), f3(x[::-1], p[::-1]), x[0] * x[1] * p[0] + x[2] ** 2])
RULES = {"midpoint": I.midpoint, "trap": I.trap, "simpson": I.simpson, "gauss3": I.gauss(3), "gauss5": I.gauss(5)}
POS = lambda *s: lambda r: r.uniform(0.4, 1.4, s)
ANY = lambda *s: lambda r: r.normal(size=s)


def nodes(z):
    return jnp.cumsum(jnp.concatenate([z[:1] - 1.0, jnp.abs(z[1:]) + 0.2]))


def patch(q):
    """A curved patch with shape parameters."""
    return lambda x: jnp.stack([q[0] * x[0] + 0.1 * x[1] ** 2, q[1] * x[1] + 0.2 * x[0], 0.3 * q[2] * x[0] * x[1] + 0.2 * x[0] ** 2])


def lorenz(y, t, p):
    return {"a": p[0] * (y["b"] - y["a"]) + 0.1 * t, "b": y["a"] * (p[1] - y["b"]) * 0.3 - jnp.sin(t) * y["a"]}


def flow(method):
    def f(z, p, t):
        ys = ode.odeint(lorenz, {"a": z[0], "b": z[1]}, nodes(t), p, method=method)
        return jnp.concatenate([ys["a"], ys["b"]])
    return f


def net(z, x, layers):
    model = M.MLP(layers[1:])
    shape = jax.eval_shape(lambda: model.init(jax.random.key(0), jnp.ones(layers[0])))
    leaves, tree = jax.tree_util.tree_flatten(shape)
    sizes = np.cumsum([0] + [int(np.prod(q.shape)) for q in leaves])
    P = jax.tree_util.tree_unflatten(tree, [z[a:b].reshape(q.shape) for a, b, q in zip(sizes[:-1], sizes[1:], leaves)])
    return jnp.atleast_1d(model.apply(P, x))



# name: (generators of the inputs, function of these inputs)
F = {}
for _n, _m in RULES.items():
    F["integrate-" + _n] = ([ANY(4), POS(2)], lambda t, p, m=_m: I.integrate(lambda x, p: f2(jnp.stack([x, x * p[1]]), p), nodes(t), p, method=m))
    F["integrate2-" + _n] = ([ANY(3), ANY(2), POS(2)], lambda s, t, p, m=_m: I.integrate(v2, [nodes(s), nodes(t)], p, method=m))
F |= {
    "disk": ([POS(3), ANY(2), POS(2), POS(2)], lambda r, o, a, p: I.integrate_disk(v2, r[0] + 2, o, (4, 5), r[1], a[0], a[0] + a[1], p)),
    "disk-default": ([POS(1), ANY(2)], lambda r, o: I.integrate_disk(lambda x: f2(x, (1.0, 2.0)), r[0], o, 5, method=I.gauss(3))),
    "sphere": ([POS(2), ANY(3), POS(4), POS(2)], lambda r, o, a, p: I.integrate_sphere(f3, r[0] + 2, o, (3, 4, 4), r[1], a[0] * 0.3, a[0] * 0.3 + a[1], a[2], a[2] + a[3], p)),
    "sphere-default": ([POS(1), ANY(3)], lambda r, o: I.integrate_sphere(lambda x: f3(x, (1.0, 2.0)), r[0], o, 3, method=I.gauss(3))),
    "surface": ([POS(3), ANY(3), ANY(2), POS(2)], lambda q, u, v, p: S.integrate_surface(v3, patch(q), nodes(u), nodes(v), p, method=I.gauss(2))),
    "elements": ([POS(3), ANY(3), ANY(2), POS(2)], lambda q, u, v, p: S.integrate_surface_elements(lambda x, c, p: f3(x - 0.3 * c, p), patch(q), nodes(u), nodes(v), p, method=I.gauss(2)).ravel()),
    "midpoints": ([POS(3), ANY(3), ANY(3)], lambda q, u, v: S.midpoints(patch(q), nodes(u), nodes(v)).ravel()),
    "potential": ([POS(3), ANY(3), POS(2)], lambda q, x, p: S.single_layer_potential(
        S.source_tensor(x * jnp.array([1, 1, 0]) + jnp.array([0, 0, 4.0]), patch(q), jnp.linspace(0, 1, 3), jnp.linspace(0, 1, 2), method=I.gauss(2), order=1, compute_jacfwd=False),
        S.charge_tensor(f3, patch(q), jnp.linspace(0, 1, 3), jnp.linspace(0, 1, 2), p, order=1))),
    "curl-potential": ([POS(3), ANY(3), POS(2)], lambda q, x, p: S.curl_single_layer_potential(
        S.source_tensor(x * jnp.array([1, 1, 0]) + jnp.array([0, 0, 4.0]), patch(q), jnp.linspace(0, 1, 2), jnp.linspace(0, 1, 2), method=I.gauss(2), order=1)[1],
        S.charge_tensor(v3, patch(q), jnp.linspace(0, 1, 2), jnp.linspace(0, 1, 2), p, order=1))),
    "charge": ([ANY(3), POS(2), POS(3)], lambda x, p, q: S.scalar_potential_charge(r_fun.ellipsoid(q), v3, f3)(x, (p,), (p[::-1],))),
    "charge-norm": ([ANY(3), POS(2), POS(1)], lambda x, p, q: S.vector_potential_charge(r_fun.sphere(q[0]), v3, v3, normalized=True)(x, (p,), (p[::-1],))),
    "rk4": ([ANY(2), POS(2), ANY(3)], flow(ode.rk4)),
    "euler": ([ANY(2), POS(2), ANY(3)], flow(ode.explicit_euler)),
    "rk4-step": ([ANY(2), POS(2), POS(2)], lambda z, p, t: ravel_pytree(ode.rk4(lorenz, {"a": z[0], "b": z[1]}, t[0], t[1], p))[0]),
    "laplace": ([ANY(3), POS(2)], lambda x, p: calc.laplace(v3)(x, p)),
    "laplace-laplace": ([ANY(2), POS(2)], lambda x, p: calc.laplace(lambda y: calc.laplace(f2)(y, p))(x)),
    "divergence": ([ANY(3), POS(2)], lambda x, p: calc.divergence(v3)(x, p)),
    "grad-div": ([ANY(3), POS(2)], lambda x, p: jnp.concatenate([jnp.ravel(q) for q in calc.value_and_jacrev(calc.divergence(v3))(x, p)])),
    "curl3d": ([ANY(3), POS(2)], lambda x, p: calc.curl(v3)(x, p)),
    "curlcurl": ([ANY(3), POS(2)], lambda x, p: calc.curl(lambda y: calc.curl(v3)(y, p))(x)),
    "curl2d": ([ANY(2), POS(2)], lambda x, p: calc.curl(v2)(x, p)),
    "hessian_diag": ([ANY(3), POS(2)], lambda x, p: calc.hessian_diag(lambda y: f3(y, p), x)),
    "hvp": ([ANY(3), ANY(3), POS(2)], lambda x, v, p: calc.hvp_forward_over_reverse(lambda y: f3(y, p), (x,), (v,))),
    "hvp-rev": ([ANY(3), ANY(3), POS(2)], lambda x, v, p: calc.hvp_reverse_over_reverse(lambda y: f3(y, p), (x,), (v,))),
    "value-jac": ([ANY(3), POS(2)], lambda x, p: jnp.concatenate([jnp.ravel(q) for g in (calc.value_and_jacfwd, calc.value_and_jacrev) for q in g(v3)(x, p)])),
    "derivative": ([ANY(2), POS(2)], lambda x, p: jnp.stack([calc.derivative([a, b])(lambda x0, x1, p: f2(jnp.stack([x0, x1]), p))(x[0], x[1], p) for a, b in ((0, 1), (1, 1), (0, 0))])),
    "value-div": ([ANY(3), POS(2)], lambda x, p: jnp.concatenate([jnp.ravel(q) for q in calc.value_and_divergence(v3)(x, p)])),
    "ic": ([ANY(2), POS(4)], lambda x, p: M.impose_ic(lambda x: f2(x, p), lambda x, t: f2(x * t, p[::-1]), t0=p[2], decay_rate=p[3] * 2)(x, p[2] + p[1])),
    "dirichlet": ([ANY(2), POS(4)], lambda x, p: M.impose_dirichlet_bc(r_fun.ellipsoid(p[2:]), f2, lambda y: f2(y, p[::-1]))(x, p)),
    "neumann": ([ANY(2), POS(4)], lambda x, p: M.impose_neumann_bc(r_fun.ellipsoid(p[2:]), f2, lambda y: f2(y, p[::-1]))(x, p)),
    "mlp": ([ANY(2 * 3 + 3 + 3 * 2 + 2), ANY(2)], lambda z, x: net(z, x, (2, 3, 2))),
    "mlp-scalar": ([ANY(2 * 3 + 3 + 3 + 1), ANY(4, 2)], lambda z, x: net(z, x, (2, 3, 1))),
    "pinn": ([ANY(2 * 3 + 3 + 3 + 1), ANY(2), POS(1)], lambda z, x, q: calc.laplace(M.impose_dirichlet_bc(r_fun.sphere(q[0]), lambda y: net(z, y, (2, 3, 1))[0]))(x)),
    "basis": ([ANY(1), ANY(7)], lambda x, t: spline.basis(x[0], nodes(jnp.concatenate([t[:1], jnp.abs(t[1:]) + 0.3])), 3)),
    "grid": ([ANY(1), POS(2)], lambda a, p: spline.make_grid(a[0], a[0] + p[0], p[1] + 1.2, 5)),
}


def spline_apply(z, x):
    v = jax.eval_shape(lambda: spline.SplineActivation().init(jax.random.key(0), jnp.ones(2)))
    leaves, tree = jax.tree_util.tree_flatten(v)
    assert len(leaves) == 1
    return spline.SplineActivation().apply(jax.tree_util.tree_unflatten(tree, [z.reshape(leaves[0].shape)]), x)


def spline_grid(z, t, x):
    """Trainable grid, one for each feature."""
    m = spline.SplineActivation(nodes=8, degree=2, parameterize_grid=True)
    v = jax.eval_shape(lambda: m.init(jax.random.key(0), jnp.ones(2)))
    un = lambda z, v: (lambda l, tr: jax.tree_util.tree_unflatten(tr, [z.reshape(l[0].shape)]))(*jax.tree_util.tree_flatten(v))
    grid = jax.vmap(nodes)(jnp.concatenate([t[:, :1] - 1.0, jnp.abs(t[:, 1:]) + 0.3], 1))
    return m.apply({"params": un(z, v["params"]), "grids": un(grid, v["grids"])}, x)


F["spline-grid"] = ([ANY(10), ANY(2, 8), ANY(2)], spline_grid)
F["spline"] = ([ANY(20), ANY(2)], spline_apply)
# each function costs a compilation: a part of them for every process (6 in float64, 2 in float32), all of them together
POOL = sorted(F) if TIER != "quick" else sorted(F)[SHARD::6] if SHARD < 6 else sorted(F)[SHARD % 2::2]
cases = st.fixed_dictionaries(dict(f=gen.pick(*POOL), seed=gen.seeds))


_JIT = {}
_EAGER = {}


def chk(c, ctx):
    gens, fun = F[c["f"]]
    r = gen.rng(c["seed"])
    shapes = [g(r).shape for g in gens]
    sizes = np.cumsum([0] + [int(np.prod(s)) for s in shapes])

    def f(z):
        return jnp.ravel(fun(*[z[a:b].reshape(s) for a, b, s in zip(sizes[:-1], sizes[1:], shapes)]))

    N = 4
    Z = np.stack([np.concatenate([g(r).ravel() for g in gens]) for _ in range(N)])
    jf, vf = _JIT.setdefault(c["f"], (jax.jit(f), jax.jit(jax.vmap(f))))
    comp = np.stack([np.asarray(jf(A(z))) for z in Z])
    vec = np.asarray(vf(A(Z)))
    sc = 1 + np.abs(comp).max()
    _EAGER[c["f"]] = _EAGER.get(c["f"], 0) + 1
    if _EAGER[c["f"]] <= 3:  # slow
        one = np.asarray(f(A(Z[0])))
        again = np.asarray(f(A(Z[0])))
        ctx.close(one, comp[0], TOL, f"{c['f']}: eager and compiled values differ", scale=sc)
        ctx.close(again, one, 1e-14, f"{c['f']}: a second call gives another value", scale=sc)
    ctx.close(vec, comp, TOL, f"{c['f']}: vectorised and single values differ", scale=sc)
    k = agree(ctx, f, Z, c["f"], seed=c["seed"], key=c["f"])
    ctx.trivial(k == 0)
    ctx.label(c["f"])


GROUPS = [Group("procedure", cases, chk, 320, 6000)]
