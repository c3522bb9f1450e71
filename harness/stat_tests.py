"""Statistical oracles.  Every alarm level is tiny (1e-11 per test), so that a correct sampler never alarms in practice,
while the sample sizes are large enough to see the deviations the properties are about."""
import numpy as np
from scipy import stats

P = 1e-11


def chi2_counts(ctx, obs, probs, what, **info):
    """Observed counts against probabilities; small cells are merged."""
    obs, probs = np.asarray(obs, float), np.asarray(probs, float)
    n = obs.sum()
    order = np.argsort(probs)
    o, e, ao, ae = [], [], 0.0, 0.0
    for i in order:
        ao, ae = ao + obs[i], ae + n * probs[i]
        if ae >= 20:
            o.append(ao), e.append(ae)
            ao, ae = 0.0, 0.0
    if ae or ao:
        if o:
            o[-1] += ao
            e[-1] += ae
        else:
            o.append(ao), e.append(ae)
    if len(o) < 2:
        return 1.0
    o, e = np.array(o), np.array(e)
    x = ((o - e) ** 2 / e).sum()
    p = float(stats.chi2.sf(x, len(o) - 1))
    if p < P:
        ctx.fail(f"{what}: distribution differs", p_value=p, observed=obs, expected=n * probs, **info)
    return p


def chi2_uniform(ctx, values, n, what, **info):
    return chi2_counts(ctx, np.bincount(np.asarray(values).ravel().astype(int), minlength=n), np.full(n, 1 / n), what, **info)


def chi2_cells(ctx, values, allowed, what, **info):
    values = np.asarray(values).ravel()
    if not np.isin(values, allowed).all():
        ctx.fail(f"{what}: impossible combination")
    obs = np.array([(values == a).sum() for a in allowed])
    return chi2_counts(ctx, obs, np.full(len(allowed), 1 / len(allowed)), what, **info)


def ks(ctx, values, cdf, what, **info):
    p = float(stats.kstest(np.asarray(values, float), cdf).pvalue)
    if p < P:
        ctx.fail(f"{what}: distribution differs (KS)", p_value=p, **info)
    return p
