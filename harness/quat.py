"""numpy reference quaternions (arrays [a, x, y, z])."""
import numpy as np


def mul(p, q):
    a1, b1, c1, d1 = np.moveaxis(np.asarray(p, float), -1, 0)
    a2, b2, c2, d2 = np.moveaxis(np.asarray(q, float), -1, 0)
    return np.stack([a1 * a2 - b1 * b2 - c1 * c2 - d1 * d2, a1 * b2 + b1 * a2 + c1 * d2 - d1 * c2,
                     a1 * c2 - b1 * d2 + c1 * a2 + d1 * b2, a1 * d2 + b1 * c2 - c1 * b2 + d1 * a2], -1)


def conj(q):
    return np.asarray(q, float) * np.array([1.0, -1, -1, -1])


def inv(q):
    q = np.asarray(q, float)
    return conj(q) / (q @ q)


def left_matrix(q):
    return np.stack([mul(q, e) for e in np.eye(4)], -1)
