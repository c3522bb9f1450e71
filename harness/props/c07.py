"""C07: rotation quaternions are unit and rotate vectors rigidly."""
import jax
import numpy as np
from hypothesis import strategies as st

import gen
import geo
import quat
from core import Group, X64
from ev import A
from magpi.quaternions import (Quaternion, from_axis_angle, from_euler_angles, quaternion_reflection,
                               quaternion_rotation)
from props.c05 import Qof, vec
from props.xform import angle, intvec

TOL = 1e-11 if X64 else 5e-5
FORMS = gen.pick("list", "tuple", "np", "jnp")
axis = st.one_of(gen.vec_nz(3), intvec(3), gen.pick([0, 0, 1], [0.0, 1.0, 0.0], [1, 0, 0]),
                 st.tuples(gen.vec_nz(3), gen.num(-3, 3, 1)).map(lambda t: [float(x * 10.0 ** t[1]) for x in t[0]]))


def form(v, f):
    return {"list": list, "tuple": tuple, "np": lambda v: np.array(v), "jnp": lambda v: jax.numpy.asarray(v)}[f](v)


rot_cases = st.fixed_dictionaries(dict(angle=angle(), axis=axis, x=gen.vec(3, -3, 3, 2), form=FORMS,
                                       mode=gen.pick("eager", "eager", "jit")))


def rotated(ctx, x, q):
    return ctx.shape(quaternion_rotation(A(x), q), (3,), "rotated vector").astype(float)


def chk_axis(c, ctx):
    q = from_axis_angle(c["angle"], form(c["axis"], c["form"]))
    v = vec(ctx, q)
    ctx.close(np.linalg.norm(v), 1.0, TOL, "norm of the rotation quaternion", axis=c["axis"], angle=c["angle"])
    x = np.array(c["x"])
    f = lambda x, q: quaternion_rotation(x, q)
    r = ctx.shape((jax.jit(f) if c["mode"] == "jit" else f)(A(x), q), (3,), "rotated vector")
    ctx.close(r, geo.rot3(c["axis"], -float(c["angle"])) @ x, TOL * 10, "rotation by axis and angle", scale=1 + np.abs(x).max(),
              axis=c["axis"], angle=c["angle"], x=x)
    # as documented: q^-1 p q
    e = quat.mul(quat.mul(quat.inv(v), np.r_[0, x]), v)[1:]
    ctx.close(r, e, TOL * 10, "q^-1 p q", scale=1 + np.abs(x).max())
    ctx.trivial(float(c["angle"]) == 0 or not x.any())
    ctx.label("unit" if abs(np.linalg.norm(c["axis"]) - 1) < 1e-9 else "non-unit", c["form"])
    ctx.count(1)


def chk_traced(c, ctx):
    """The same under jit/vmap with traced angle and axis."""
    f = jax.jit(lambda a, n, x: quaternion_rotation(x, from_axis_angle(a, n)))
    x = np.array(c["x"])
    n = np.array(c["axis"], float)
    th = np.array([float(c["angle"]), 0.5, -2.0])
    r = np.asarray(jax.vmap(f, (0, None, None))(A(th), A(n), A(x)))
    e = np.stack([geo.rot3(n, -t) @ x for t in th])
    ctx.close(r, e, TOL * 10, "traced rotation", scale=1 + np.abs(x).max())
    ctx.count(3)


euler_cases = st.fixed_dictionaries(dict(a=st.one_of(gen.vec(3, -7, 7, 2), intvec(3), st.tuples(angle(), st.integers(0, 2)).map(
    lambda t: [float(t[0]) if i == t[1] else 0.0 for i in range(3)])), x=gen.vec(3, -3, 3, 2), form=FORMS))


def chk_euler(c, ctx):
    q = from_euler_angles(form(c["a"], c["form"]))
    ctx.close(np.linalg.norm(vec(ctx, q)), 1.0, TOL, "norm of the Euler quaternion", angles=c["a"])
    x = np.array(c["x"])
    ctx.close(rotated(ctx, x, q), geo.euler(np.array(c["a"], float)).T @ x, TOL * 10, "Euler rotation", scale=1 + np.abs(x).max(), angles=c["a"], x=x)
    ctx.count(1)
    ctx.label("single" if sum(1 for a in c["a"] if a) <= 1 else "general")


gen_q = st.tuples(st.lists(gen.num(-3, 3, 2), min_size=4, max_size=4), gen.num(-2, 2, 1)).map(
    lambda t: [float(x * 10.0 ** t[1]) for x in (t[0] if np.linalg.norm(t[0]) > 0.2 else [1.0] + t[0][1:])])
rigid_cases = st.fixed_dictionaries(dict(p=gen_q, q=gen_q, x=gen.vec_nz(3), y=gen.vec_nz(3), size=gen.pick(1.0, 1.0, 1e-3, 1e3)))


def chk_rigid(c, ctx):
    P, Q = Qof(c["p"]), Qof(c["q"])
    z = c.get("size", 1.0)
    x, y = np.array(c["x"]) * z, np.array(c["y"]) * z
    M = np.stack([rotated(ctx, e, Q) for e in np.eye(3)], -1)
    ctx.close(M @ M.T, np.eye(3), TOL * 10, "quaternion action is not orthogonal", scale=1.0, q=c["q"])
    ctx.close(np.linalg.det(M), 1.0, TOL * 10, "quaternion action reverses orientation", scale=1.0)
    ctx.close(rotated(ctx, 2 * x - 3 * y, Q), M @ (2 * x - 3 * y), TOL * 100, "quaternion action is not linear", scale=20 * z)
    ctx.close(rotated(ctx, rotated(ctx, x, P), Q), rotated(ctx, x, P * Q), TOL * 100, "composition of rotations", scale=5 * z)
    u = np.array(c["q"]) / np.linalg.norm(c["q"])
    ctx.close(rotated(ctx, x, Q), quat.mul(quat.mul(quat.conj(u), np.r_[0, x]), u)[1:], TOL * 10, "q^-1 p q", scale=5 * z)
    ctx.close(rotated(ctx, rotated(ctx, x, Q), Q.reciprocal()), x, TOL * 100, "inverse rotation", scale=5 * z)
    ctx.count(8)


refl_cases = st.fixed_dictionaries(dict(n=axis, x=gen.vec(3, -3, 3, 2), form=FORMS))


def chk_refl(c, ctx):
    x, n = np.array(c["x"]), np.array(c["n"], float)
    r = ctx.shape(quaternion_reflection(A(x), form([float(v) for v in c["n"]], c["form"])), (3,), "reflected vector")
    ctx.close(r, geo.householder(n) @ x, TOL * 10, "reflection", scale=1 + np.abs(x).max(), n=n, x=x)
    ctx.trivial(not x.any())
    ctx.count(1)


GROUPS = [
    Group("axis", rot_cases, chk_axis, 350, 8000),
    Group("traced", rot_cases, chk_traced, 60, 600),
    Group("euler", euler_cases, chk_euler, 250, 5000),
    Group("rigid", rigid_cases, chk_rigid, 200, 4000),
    Group("reflection", refl_cases, chk_refl, 150, 3000),
]
