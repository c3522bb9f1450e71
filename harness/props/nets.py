"""numpy evaluation of the MLPs of magpi.model from their parameter tree."""
import re

import numpy as np


def layers(params):
    """(kernel, bias) in network order: numbered layers first, the output layer last."""
    L = params["params"]

    def order(k):
        m = re.findall(r"\d+", k)
        return (0, int(m[-1])) if m else (1, 0)
    return [(np.asarray(L[k]["kernel"], float), np.asarray(L[k]["bias"], float)) for k in sorted(L, key=order)]


def jets(params, x, v1, v2=None):
    """Value, first and mixed second directional derivative of a tanh MLP."""
    ls = layers(params)
    v2 = np.zeros_like(x) if v2 is None else v2
    y, a, b, ab = x, v1, v2, np.zeros_like(x)
    for k, (W, bb) in enumerate(ls):
        y, a, b, ab = y @ W + bb, a @ W, b @ W, ab @ W
        if k < len(ls) - 1:
            t = np.tanh(y)
            d1, d2 = 1 - t * t, -2 * t * (1 - t * t)
            y, a, b, ab = t, d1 * a, d1 * b, d2 * a * b + d1 * ab
    return y, a, ab
