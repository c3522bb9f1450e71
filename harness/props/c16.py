"""C16: derivative operators return the requested partial derivatives."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import gen
from core import Group, X64
from ev import A
from magpi import calc
from magpi.model import mlp
from props import nets

TOL = 1e-8 if X64 else 2e-3
NAMES = ["x", "y", "z", "u", "v"]
TREE = 3  # entries of a dict argument (code -1): {"a": scalar, "b": vector of 2}


# --- functions: sum over terms of products of one-variable factors with closed-form derivatives of any order
def fac(xp, kind, w, p, x):
    if kind == 0:
        return xp.sin(w * x + p)
    if kind == 1:
        return xp.exp(0.5 * w * x)
    return p + w * x + x**2 * 0.5 - 0.25 * x**3


def fac_n(kind, w, p, x, n):
    if kind == 0:
        return w**n * np.sin(w * x + p + n * np.pi / 2)
    if kind == 1:
        return (0.5 * w) ** n * np.exp(0.5 * w * x)
    return [p + w * x + x**2 * 0.5 - 0.25 * x**3, w + x - 0.75 * x**2, 1 - 1.5 * x, -1.5][n] if n < 4 else 0.0


class Fn:
    """A function of `sizes` arguments (0: scalar, k: vector of k); T terms, m outputs."""

    def __init__(self, c):
        r = gen.rng(c["seed"])
        self.sizes = c["sizes"]
        self.dim = [TREE if s < 0 else max(s, 1) for s in self.sizes]
        self.nv = sum(self.dim)
        self.kind = r.integers(0, 3, (2, self.nv))
        self.w, self.p = np.round(r.uniform(-1.3, 1.3, (2, self.nv)), 3), np.round(r.uniform(-1, 1, (2, self.nv)), 3)
        self.C = np.round(r.uniform(-1, 1, (2, 3)), 3)
        self.x = np.round(r.uniform(-1, 1, self.nv), 3)
        self.out = c["out"]
        self.off = np.cumsum([0] + self.dim)

    def args(self):
        return self.split(self.x)

    def split(self, v):
        out = []
        for i, s in enumerate(self.sizes):
            w = v[self.off[i]:self.off[i + 1]]
            out.append(A(w[0]) if s == 0 else (A(w) if s > 0 else dict(b=A(w[1:]), a=A(w[0]))))
        return out

    def pack(self, v):
        return {"scalar": v[..., 0], "vec": v[..., :2], "tree": dict(a=v[..., 0], b=[v[..., 1:]])}[self.out]

    def raw(self, args, s):
        xs = []
        for a, z in zip(args, self.sizes):
            xs += [a] if z == 0 else ([a[j] for j in range(z)] if z > 0 else [a["a"], a["b"][0], a["b"][1]])
        t = [1.0, 1.0]
        for k in range(2):
            for v in range(self.nv):
                t[k] = t[k] * fac(jnp, self.kind[k, v], self.w[k, v], self.p[k, v], xs[v])
        return self.pack(s * jnp.stack([self.C[0, i] * t[0] + self.C[1, i] * t[1] for i in range(3)], -1))

    def make(self, style):
        n = len(self.sizes)
        raw = self.raw
        names = ", ".join(NAMES[:n])
        tail, call, extra, kw = {"kw": (", *, s", "s", [], dict(s=2.0)), "pos": (", s", "s", [A(2.0)], {}), "plain": ("", "2.0", [], {})}[style]
        return eval(f"lambda {names}{tail}: raw([{names}], {call})", dict(raw=raw)), extra, kw

    def deriv(self, dirs):
        """dirs: list of direction vectors in flattened variable space -> value of the iterated directional derivative."""
        out = np.zeros(3)
        supp = [[(i, d[i]) for i in range(self.nv) if d[i] != 0] for d in dirs]
        for combo in itertools.product(*supp):
            cnt = np.bincount([i for i, _ in combo], minlength=self.nv)
            co = np.prod([z for _, z in combo]) if combo else 1.0
            for k in range(2):
                out += co * self.C[k] * np.prod([fac_n(self.kind[k, v], self.w[k, v], self.p[k, v], self.x[v], cnt[v]) for v in range(self.nv)])
        return self.pack(2.0 * out)

    def unit(self, arg, comp=None):
        d = np.zeros(self.nv)
        if comp is None:
            d[self.off[arg]:self.off[arg + 1]] = 1
        else:
            d[self.off[arg] + comp % self.dim[arg]] = 1
        return d


def compare(ctx, got, exp, tol, what, **info):
    tg, te = jax.tree_util.tree_structure(got), jax.tree_util.tree_structure(exp)
    ctx.true(tg == te, f"{what}: structure differs", got=str(tg), expected=str(te))
    for a, b in zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(exp)):
        ctx.close(a, np.asarray(b), tol, what, **info)


sizes = st.lists(gen.pick(0, 0, 2, 3, 5, 1, -1), min_size=1, max_size=5).map(lambda v: v if len(v) < 4 else [min(z, 2) for z in v])
base = dict(seed=gen.seeds, out=gen.pick("scalar", "vec", "tree"), style=gen.pick("plain", "kw", "pos"), jit=gen.pick(*[False] * 5, True))


def with_requests(sz):
    n = len(sz)
    arg = st.integers(0, n - 1)
    form = gen.pick("default", "call", "int", "name", "list", "list", "component", "component", "direction", "value", "value_comp", "value_dir")
    return st.fixed_dictionaries(dict(base, sizes=st.just(sz), form=form, seq=st.lists(st.tuples(arg, st.integers(0, 4), st.booleans()), min_size=1, max_size=4),
                                      alln=st.booleans(), outer=gen.pick("list", "tuple")))


cases = sizes.flatmap(with_requests)


def chk(c, ctx):
    F = Fn(c)
    f, extra, kw = F.make(c["style"])
    form, seq = c["form"], c["seq"]
    args = F.args() + extra
    n = len(F.sizes)
    r = gen.rng(c["seed"], 2)
    i, comp, by_name = seq[0]
    dirs = [F.unit(i)]
    seqt = tuple if c["outer"] == "tuple" else list
    value = None
    if form == "default":
        df, dirs = calc.derivative(f), [F.unit(0)]
    elif form == "call":
        df = calc.derivative(f, i)
    elif form == "int":
        df = calc.derivative(i)(f)
    elif form == "name":
        df = calc.derivative(NAMES[i])(f)
    elif form == "list":
        req = seqt(NAMES[a] if nm else a for a, _, nm in seq)
        dirs = [F.unit(a) for a, _, _ in seq]
        df = calc.derivative(req)(f)
    elif form == "component":
        vecs = [a for a in range(n) if F.sizes[a] > 0]
        if not vecs:
            ctx.trivial()
            return
        if c["alln"]:     # one argnums for all
            a0 = vecs[i % len(vecs)]
            req, an = [k % F.sizes[a0] for _, k, _ in seq], a0
            dirs = [F.unit(a0, k) for k in req]
        else:             # per entry, None = a plain partial derivative by position or name
            req, an, dirs = [], [], []
            for a, k, nm in seq:
                if F.sizes[a] > 0:
                    req.append(k % F.sizes[a])
                    an.append(a)
                    dirs.append(F.unit(a, k))
                else:
                    req.append(NAMES[a] if nm else a)
                    an.append(None)
                    dirs.append(F.unit(a))
            req, an = seqt(req), seqt(an)
        df = calc.derivative(req, argnums=an)(f)
    elif form in ("direction", "value_dir"):
        k = len(seq) if form == "direction" else 1
        dirs = [np.round(r.uniform(-1, 1, F.nv), 2) for _ in range(k)]
        tang = [F.split(d) + [A(0.0) for _ in extra] for d in dirs]
        df = calc.derivative(tang)(f) if form == "direction" else calc.value_and_derivative(f, tang[0])
    elif form == "value":
        df = calc.value_and_derivative(f, NAMES[i] if by_name else i)
    else:
        vecs = [a for a in range(n) if F.sizes[a] > 0]
        if not vecs:
            ctx.trivial()
            return
        a0 = vecs[i % len(vecs)]
        k = comp % F.sizes[a0]
        df, dirs = calc.value_and_derivative(f, k, argnum=a0), [F.unit(a0, k)]
    g = jax.jit(df) if c["jit"] else df
    got = g(*args, **kw)
    if form.startswith("value"):
        ctx.true(isinstance(got, tuple) and len(got) == 2, "value_and_derivative does not return a pair")
        value, got = got
        compare(ctx, value, F.deriv([]), TOL, "value next to the derivative")
    compare(ctx, got, F.deriv(dirs), TOL, f"derivative ({form})")
    ctx.label(form, f"order{len(dirs)}", c["out"], c["style"], f"nargs{n}", "jit" if c["jit"] else "eager")
    ctx.count(1)


# --- rejected requests
err_cases = st.fixed_dictionaries(dict(seed=gen.seeds, sizes=st.lists(gen.pick(0, 0, 2), min_size=1, max_size=3), out=gen.pick("scalar", "vec"),
                                       kind=gen.pick("name", "name_list", "value_name", "kwarg", "kwarg_name", "kwarg_value", "kwarg_comp", "missing", "negative", "kwarg_mid"),
                                       bad=gen.pick("q", "t", "xx", "X", "s")))


def chk_err(c, ctx):
    F = Fn(c)
    n = len(F.sizes)
    f, _, _ = F.make("plain")
    args = F.args()
    k = c["kind"]
    last = n - 1

    def go():
        if k == "name":
            return calc.derivative(c["bad"])(f)(*args)
        if k == "name_list":
            return calc.derivative(["x", c["bad"]])(f)(*args)
        if k == "value_name":
            return calc.value_and_derivative(f, c["bad"])(*args)
        if k == "missing":
            return calc.derivative(n)(f)(*args)
        if k == "negative":
            return calc.derivative(-1 - n)(f)(*args)
        if k == "kwarg_mid":  # an argument passed by keyword, the requested one too
            return calc.derivative([NAMES[0], NAMES[last]])(f)(*args[:-1], **{NAMES[last]: args[last]})
        kw = {NAMES[last]: args[last]}
        if k == "kwarg":
            return calc.derivative(last)(f)(*args[:-1], **kw)
        if k == "kwarg_comp":
            return calc.derivative([0], argnums=[last])(f)(*args[:-1], **kw)
        if k == "kwarg_name":
            return calc.derivative(NAMES[last])(f)(*args[:-1], **kw)
        return calc.value_and_derivative(f, last)(*args[:-1], **kw)

    try:
        v = go()
    except Exception:
        pass
    else:
        ctx.fail("invalid derivative request was accepted", kind=k, bad=c["bad"], nargs=n, got=str(v))
    ctx.label(k)
    ctx.count(1)


# --- networks
net_cases = st.fixed_dictionaries(dict(seed=gen.seeds, hidden=gen.pick([3], [4, 3]), d=gen.pick(1, 2, 3, 5), out=gen.pick(1, 2), form=gen.pick("call", "int", "name", "comp", "comp2", "value"),
                                       i=st.integers(0, 4), jit=gen.pick(False, False, True)))


def chk_net(c, ctx):
    model, params = mlp(jax.random.PRNGKey(c["seed"] % 2**31), [c["d"], *c["hidden"], c["out"]])
    r = gen.rng(c["seed"], 4)
    x = np.round(r.uniform(-1, 1, c["d"]), 3)
    i = c["i"] % c["d"]
    one, e = np.ones(c["d"]), np.eye(c["d"])[i]
    f = c["form"]
    sq = (lambda y: y[0]) if c["out"] == 1 else (lambda y: y)
    if f == "call":
        df = calc.derivative(model)
    elif f == "int":
        df = calc.derivative(0)(model)
    elif f == "name":
        df = calc.derivative("x")(model)
    elif f == "comp":
        df = calc.derivative([i], argnums=[0])(model)
    elif f == "comp2":
        df = calc.derivative([i, 0], argnums=0)(model)
    else:
        df = calc.value_and_derivative(model, i, argnum=0)
    got = (jax.jit(df) if c["jit"] else df)(A(x), params)
    if f == "value":
        ctx.close(got[0], sq(nets.jets(params, x, e)[0]), TOL, "network value")
        got = got[1]
    exp = nets.jets(params, x, one)[1] if f in ("call", "int", "name") else (nets.jets(params, x, e)[1] if f != "comp2" else nets.jets(params, x, e, np.eye(c["d"])[0])[2])
    ctx.close(got, sq(exp), TOL, f"network derivative ({f})")
    ctx.label(f, f"d{c['d']}", f"out{c['out']}")
    ctx.count(1)


GROUPS = [
    Group("request", cases, chk, 1600, 24000),
    Group("rejected", err_cases, chk_err, 300, 4000),
    Group("network", net_cases, chk_net, 160, 3000),
]
