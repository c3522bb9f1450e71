"""numpy reference geometry: rotations, transformation chains (independent of the code under test)."""
import numpy as np


def rot2(t):
    c, s = np.cos(t), np.sin(t)
    return np.array([[c, -s], [s, c]])


def rot3(axis, t):
    """Right-handed rotation matrix about axis (Rodrigues)."""
    k = np.asarray(axis, float)
    k = k / np.linalg.norm(k)
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + np.sin(t) * K + (1 - np.cos(t)) * (K @ K)


def euler(a):
    """Rotation about the fixed x, then y, then z axis."""
    return rot3([0, 0, 1], a[2]) @ rot3([0, 1, 0], a[1]) @ rot3([1, 0, 0], a[0])


def householder(n):
    n = np.asarray(n, float)
    return np.eye(len(n)) - 2 * np.outer(n, n) / (n @ n)
