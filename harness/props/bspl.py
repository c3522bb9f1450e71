"""Reference B-splines (numpy, complex capable in the knots)."""
import numpy as np


def cox(x, t, k):
    """All B-splines of degree k on knots t at points x: (len(x), len(t)-k-1); right-open intervals."""
    x = np.asarray(x)[..., None]
    t = np.asarray(t)
    xr, tr = np.real(x), np.real(t)
    B = ((tr[:-1] <= xr) & (xr < tr[1:])).astype(np.result_type(x, t, float))
    for d in range(1, k + 1):
        with np.errstate(all="ignore"):
            d1, d2 = t[d:-1] - t[:-d - 1], t[d + 1:] - t[1:-d]
            c1 = np.where(np.real(d1) > 0, (x - t[:-d - 1]) / d1, 0) * B[..., :-1]
            c2 = np.where(np.real(d2) > 0, (t[d + 1:] - x) / d2, 0) * B[..., 1:]
        B = np.where(np.real(d1) > 0, c1, 0) + np.where(np.real(d2) > 0, c2, 0)
    return B


def dcox(x, t, k, order=1):
    """order-th derivative of the B-splines by the derivative formula."""
    if order == 0:
        return cox(x, t, k)
    n = len(t) - k - 1
    if k == 0:
        return np.zeros((*np.shape(x), n))
    L = dcox(x, t, k - 1, order - 1)
    with np.errstate(all="ignore"):
        a = np.where(t[k:k + n] > t[:n], k / (t[k:k + n] - t[:n]), 0)
        b = np.where(t[k + 1:k + 1 + n] > t[1:1 + n], k / (t[k + 1:k + 1 + n] - t[1:1 + n]), 0)
    return a * L[..., :-1] - b * L[..., 1:]
