"""C01: CSG operations on R-functions decide set membership (Kleene sign oracle on random expression trees)."""
import numpy as np
from hypothesis import strategies as st

import gen
from core import Group, X64
from ev import A, MODES, batch
from magpi import r_fun
from props import rsys

KINDS = ["generic", "zeros", "ties", "mixed"]


def check_signs(ctx, v, e, sign, ref, X, info):
    """v: computed values, sign: oracle, (ref, e): float64 model value and rounding bound (only decides conditioning)."""
    sane = np.isfinite(e)
    if not np.isfinite(v[sane]).all():
        i = int(np.argmax(sane & ~np.isfinite(v)))
        ctx.fail("combined ADF: not finite for finite operands", operands=X[i], value=v[i], **info)
    clear = np.abs(ref) > 4 * e
    zero = sign == 0
    bad = (sign != 0) & clear & (np.sign(v) != sign)
    badz = zero & np.isfinite(e) & (np.abs(v) > 4 * e + (1e-13 if X64 else 1e-6))
    ctx.count(len(v))
    ctx.label("points-all-clear" if (clear | zero).all() else "points-some-ill-conditioned")
    for b, what in ((bad, "wrong side"), (badz, "not zero on the boundary")):
        if b.any():
            i = int(np.argmax(b))
            ctx.fail(f"combined ADF: {what}", operands=X[i], value=v[i], boolean_sign=sign[i], **info)


def depth_for():
    return st.integers(1, 4 if X64 else 3)


tree_cases = st.fixed_dictionaries(dict(
    sys=rsys.sys_any(),
    tree=depth_for().flatmap(lambda d: rsys.trees(3, d)),
    kind=gen.pick(*KINDS), seed=gen.seeds, mode=gen.pick("vmap", "vmap", "vmap", "jit", "loop", "eager")))


def chk_tree(c, ctx):
    rs = rsys.build(c["sys"])
    leaves = [lambda x, i=i: x[i] for i in range(3)]
    f = rsys.adf_of(c["tree"], leaves, rs)
    X = rsys.operand_points(c["seed"], c["kind"], 48, 3)
    ctx.label("sys:" + c["sys"][0], "kind:" + c["kind"], f"depth-size:{min(rsys.size(c['tree']), 20)}")
    v, n = batch(f, X, c["mode"])
    X = X[:n]
    ctx.shape(v, (n,), "combined ADF")
    ref, e = rsys.model(c["tree"], c["sys"], X)
    check_signs(ctx, v.astype(float), e, rsys.kleene(c["tree"], np.sign(X)), ref, X, dict(sys=str(c["sys"]), tree=str(c["tree"])))


pair_cases = st.fixed_dictionaries(dict(sys=rsys.sys_any(), kind=gen.pick(*KINDS), seed=gen.seeds,
                                        exp=gen.num(-3, 3, 1)))


def chk_pair(c, ctx):
    """Laws of the two connectives themselves: commutativity, De Morgan, sign, no NaN, numeric forms of operands."""
    rs = rsys.build(c["sys"])
    s = 10.0 ** (c["exp"] if X64 and c["sys"][0] != "alpham" else 0)
    X = rsys.operand_points(c["seed"], c["kind"], 48, 2) * s
    a, b = A(X[:, 0]), A(X[:, 1])
    con, dis = np.asarray(rs.conjunction(a, b)), np.asarray(rs.disjunction(a, b))
    ctx.count(len(X))
    info = dict(sys=str(c["sys"]))
    X = np.stack([np.asarray(a), np.asarray(b)], -1).astype(float)
    for name, v, sg, t in (("conjunction", con, -1, ["and", ["leaf", 0], ["leaf", 1]]),
                           ("disjunction", dis, +1, ["or", ["leaf", 0], ["leaf", 1]])):
        ctx.shape(v, (len(X),), name)
        ref, e = rsys.model(t, c["sys"], X)
        check_signs(ctx, v.astype(float), e, rsys.kleene(t, np.sign(X)), ref, X, info)
        back = np.asarray((rs.conjunction if sg < 0 else rs.disjunction)(b, a))
        dual = -np.asarray((rs.disjunction if sg < 0 else rs.conjunction)(-a, -b))
        t_ = 8 * e + 1e-300
        for what, o in (("not commutative", back), ("De Morgan dual differs", dual)):
            bad = ~(np.abs(v.astype(float) - o) <= t_)
            if bad.any():
                i = int(np.argmax(bad))
                ctx.fail(f"{name}: {what}", operands=X[i], got=v[i], other=o[i], **info)
    # named relations
    al = c["sys"][1] if c["sys"][0] == "alpha" else {"r1": 1.0}.get(c["sys"][1])
    if c["sys"][0] in ("alpha", "named") and al == 1.0:
        tol = 1e-7 if X64 else 2e-3
        ctx.close(con, np.minimum(X[:, 0], X[:, 1]), tol, "R_1 conjunction is min", scale=np.abs(X).max(1))
        ctx.close(dis, np.maximum(X[:, 0], X[:, 1]), tol, "R_1 disjunction is max", scale=np.abs(X).max(1))
        ctx.label("min/max")
    if c["sys"] in (["p", 2], ["named", "rp2"]):
        tol = 1e-12 if X64 else 1e-5
        ctx.close(con, np.asarray(r_fun.r0.conjunction(a, b)), tol, "R_p(2) conjunction is R_0", scale=np.abs(X).max(1) + 1e-300)
        ctx.close(dis, np.asarray(r_fun.r0.disjunction(a, b)), tol, "R_p(2) disjunction is R_0", scale=np.abs(X).max(1) + 1e-300)
    # plain python numbers are accepted as operands
    i = c["seed"] % len(X)
    p = float(rs.conjunction(float(X[i, 0]), float(X[i, 1])))
    _, e = rsys.model(["and", ["leaf", 0], ["leaf", 1]], c["sys"], X[i])
    ctx.true(abs(p - float(con[i])) <= 8 * e + 1e-300, "scalar and batched conjunction differ", a=X[i, 0], b=X[i, 1],
             got=p, expected=con[i], **info)


rho_cases = st.fixed_dictionaries(dict(rho=st.one_of(gen.num(0.05, 3, 2), gen.num(0.05, 3, 2), gen.pick(1, 2, 0.002, 40.0)), op=gen.pick("and", "or", "diff", "impl"), seed=gen.seeds,
                                       mode=gen.pick(*MODES)))


def chk_rho(c, ctx):
    rho = c["rho"]
    rs, r0 = r_fun.RhoBlending(rho), r_fun.r0
    r = gen.rng(c["seed"])
    rad = rho * np.exp(r.uniform(np.log(0.05), np.log(8), 40))
    ph = r.uniform(0, 2 * np.pi, 40)
    X = np.stack([rad * np.cos(ph), rad * np.sin(ph)], -1)
    X[:4] *= 0.0
    X[4:8, 0] = 0.0
    if not X64:
        X = X.astype(np.float32).astype(float)
    leaves = [lambda x: x[0], lambda x: x[1]]
    t = [c["op"], ["leaf", 0], ["leaf", 1]]
    v, n = batch(rsys.adf_of(t, leaves, rs), X, c["mode"], 40)
    w, _ = batch(rsys.adf_of(t, leaves, r0), X, c["mode"], 40)
    ctx.finite(v, "blended ADF")
    ctx.count(n)
    R = np.hypot(X[:, 0], X[:, 1])
    tol = (1e-12 if X64 else 1e-5) * (1 + R)
    out = R >= rho * (1 + 1e-5)
    bad = out & (np.abs(v - w) > tol)
    if bad.any():
        i = int(np.argmax(bad))
        ctx.fail("blending differs from R_0 outside its radius", operands=X[i], rho=rho, got=v[i], r0=w[i])
    rounds = (v <= w + tol) if c["op"] in ("and", "diff") else (v >= w - tol)
    if not rounds.all():
        i = int(np.argmin(rounds))
        ctx.fail("blending must shrink intersections and grow unions", op=c["op"], operands=X[i], got=v[i], r0=w[i])
    a, b = A(X[:, 0]), A(X[:, 1])
    for name, f, g in (("conjunction", rs.conjunction, rs.disjunction), ("disjunction", rs.disjunction, rs.conjunction)):
        v1 = np.asarray(f(a, b)).astype(float)
        for what, o in (("not commutative", f(b, a)), ("De Morgan dual differs", -g(-a, -b))):
            bad = ~(np.abs(v1 - np.asarray(o)) <= tol + 1e-7 * np.abs(v1))
            if bad.any():
                i = int(np.argmax(bad))
                ctx.fail(f"blended {name}: {what}", operands=X[i], rho=rho, got=v1[i], other=np.asarray(o)[i])
    ins = (R > 0.0) & (R < 0.9 * rho)
    moved = np.abs(v - w)[ins]
    if len(moved):
        ctx.true((moved > 0).all() or rho < 0.1, "blending has no effect inside its radius", rho=rho, op=c["op"])
    ctx.label("inside" if ins.any() else "outside-only")


geo_cases = st.fixed_dictionaries(dict(
    sys=rsys.sys_normalized(), dim=st.integers(1, 3), tree=st.integers(1, 3).flatmap(lambda d: rsys.trees(3, d)),
    solids=st.lists(st.tuples(gen.pick("sphere", "cuboid"), gen.vec(3, -1, 1, 2), gen.vec(3, 0.4, 2, 2)),
                    min_size=3, max_size=3),
    seed=gen.seeds, mode=gen.pick("vmap", "vmap", "jit", "loop", "eager")))


def chk_geo(c, ctx):
    """Solids from the library combined by the library against set membership of points."""
    d = c["dim"]
    rs = rsys.build(c["sys"])
    leaves, val = [], []
    X = gen.rng(c["seed"]).uniform(-2.5, 2.5, (40, d))
    for kind, o, s in c["solids"]:
        o, s = np.array(o[:d]), np.array(s[:d])
        if kind == "sphere":
            leaves.append(r_fun.translate(r_fun.sphere(float(s[0])), o))
            val.append(s[0] - np.linalg.norm(X - o, axis=-1))
        else:
            leaves.append(r_fun.translate(r_fun.cuboid(list(s), centering=True, r_system=rs), o))
            val.append((s / 2 - np.abs(X - o)).min(-1))
    val = np.stack(val, -1)
    keep = (np.abs(val) > 0.02).all(-1)
    ctx.count(int(keep.sum()))
    v, n = batch(rsys.adf_of(c["tree"], leaves, rs), X, c["mode"])
    ctx.shape(v, (n,), "combined ADF")
    ctx.finite(v, "combined ADF")
    sign = rsys.kleene(c["tree"], np.sign(val))[:n]
    bad = keep[:n] & (np.sign(v) != sign)
    both = len(set(sign[keep[:n]].tolist())) == 2
    ctx.label("geo-both-sides" if both else "geo-one-side", f"dim{d}")
    ctx.trivial(not both)
    if bad.any():
        i = int(np.argmax(bad))
        ctx.fail("combined solid: point on the wrong side", point=X[i], signed=val[i], value=v[i], boolean=sign[i])


nary_cases = st.fixed_dictionaries(dict(sys=rsys.sys_any(), op=gen.pick("and", "or"), n=st.integers(2, 5),
                                        kind=gen.pick("generic", "zeros"), seed=gen.seeds))


def chk_nary(c, ctx):
    """compose(connective)(adf1, ..., adfn) and its chained binary form agree with the n-ary Boolean operation."""
    rs = rsys.build(c["sys"])
    n = c["n"]
    leaves = [lambda x, i=i: x[i] for i in range(n)]
    X = rsys.operand_points(c["seed"], c["kind"], 32, n, 0.2, 5)
    t = ["leaf", 0]
    for i in range(1, n):
        t = [c["op"], t, ["leaf", i]]
    f = r_fun.compose(rs.conjunction if c["op"] == "and" else rs.disjunction)(*leaves)
    v, _ = batch(f, X, "vmap")
    ctx.shape(v, (len(X),), "composed ADF")
    ref, e = rsys.model(t, c["sys"], X)
    check_signs(ctx, v.astype(float), e, rsys.kleene(t, np.sign(X)), ref, X, dict(sys=str(c["sys"]), n=n))


reject_cases = st.one_of(
    st.tuples(st.just("alpha"), st.one_of(gen.num(-5, -1, 3), gen.num(1.001, 5, 3))),
    st.tuples(st.just("alpham"), st.one_of(gen.num(-5, -1, 3), gen.num(1.001, 5, 3))),
    st.tuples(st.just("p"), st.integers(0, 20).map(lambda i: 2 * i + 1))).map(list)


def chk_reject(c, ctx):
    k, v = c
    try:
        dict(alpha=lambda: r_fun.RAlpha(v), alpham=lambda: r_fun.RAlphaM(1, v), p=lambda: r_fun.RP(v))[k]()
    except Exception:
        return
    ctx.fail("parameter outside the documented range accepted", system=k, value=v)


GROUPS = [
    Group("tree", tree_cases, chk_tree, 700, 20000),
    Group("pair", pair_cases, chk_pair, 500, 8000),
    Group("rho", rho_cases, chk_rho, 200, 4000),
    Group("geo", geo_cases, chk_geo, 200, 4000),
    Group("nary", nary_cases, chk_nary, 160, 3000),
    Group("reject", reject_cases, chk_reject, 60, 200),
]
