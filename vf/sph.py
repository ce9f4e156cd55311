"""Spherical harmonics and Wigner 3j symbols in double precision."""
from fractions import Fraction
from functools import lru_cache
from math import factorial, sqrt
import numpy as np


def ylm_all(lmax, ct, st, phi):
    """Orthonormal Y_lm with the Condon-Shortley phase: {l: array (n, 2l+1), columns m = 0..l, -1..-l}."""
    ct, st, phi = (np.asarray(x, float) for x in (ct, st, phi))
    n = len(ct)
    P = {}
    P[0, 0] = np.full(n, sqrt(1 / (4 * np.pi)))
    for m in range(1, lmax + 1):
        P[m, m] = -sqrt((2 * m + 1) / (2 * m)) * st * P[m - 1, m - 1]
    for m in range(lmax):
        P[m + 1, m] = sqrt(2 * m + 3) * ct * P[m, m]
    for m in range(lmax + 1):
        for l in range(m + 2, lmax + 1):
            a = sqrt((4 * l * l - 1) / (l * l - m * m))
            b = sqrt(((l - 1) ** 2 - m * m) / (4 * (l - 1) ** 2 - 1))
            P[l, m] = a * (ct * P[l - 1, m] - b * P[l - 2, m])
    e = [np.exp(1j * m * phi) for m in range(lmax + 1)]
    out = {}
    for l in range(lmax + 1):
        Y = np.empty((n, 2 * l + 1), complex)
        for m in range(l + 1):
            Y[:, m] = P[l, m] * e[m]
            if m:
                Y[:, l + m] = (-1) ** m * np.conj(Y[:, m])
        out[l] = Y
    return out


def ylm_of(lmax, v):
    """Y_lm of the directions of vectors (the +z axis for zero vectors)."""
    v = np.asarray(v, float)
    r = np.linalg.norm(v, axis=1)
    s = np.hypot(v[:, 0], v[:, 1])
    rr = np.where(r > 0, r, 1)
    return ylm_all(lmax, np.where(r > 0, v[:, 2] / rr, 1), np.where(r > 0, s / rr, 0), np.arctan2(v[:, 1], v[:, 0]))


def ylm_tol(l, v):
    """Error of single-precision Y_lm computed through the polar angle acos(z / r)."""
    v = np.asarray(v, float)
    r = np.linalg.norm(v, axis=1)
    s = np.hypot(v[:, 0], v[:, 1]) / np.where(r > 0, r, 1)
    g = sqrt(l * (l + 1) * (2 * l + 1) / (4 * np.pi))
    return g * np.where(s < 1e-12, 1e-6, np.minimum(4e-7 / np.maximum(s, 1e-12), 1e-3) + 1e-6) + 3e-6 * (l + 1)


def _tri(a, b, c):
    return Fraction(factorial(a + b - c) * factorial(a - b + c) * factorial(-a + b + c), factorial(a + b + c + 1))


@lru_cache(None)
def wigner_lll(l):
    """(i1, i2, i3, values): the nonzero-sum triples of m as column indices and the symbols (l l l; m1 m2 m3)."""
    I, V = [], []
    D = _tri(l, l, l)
    col = lambda m: m if m >= 0 else l - m
    f = factorial
    for m1 in range(-l, l + 1):
        for m2 in range(-l, l + 1):
            m3 = -m1 - m2
            if abs(m3) > l:
                continue
            s = Fraction(0)
            for t in range(max(0, -m1, m2), min(l, l - m1, l + m2) + 1):
                s += Fraction((-1) ** t, f(t) * f(m1 + t) * f(t - m2) * f(l - t) * f(l - t - m1) * f(l - t + m2))
            g = D * f(l + m1) * f(l - m1) * f(l + m2) * f(l - m2) * f(l + m3) * f(l - m3)
            v = (-1) ** (abs(m3) % 2) * (1 if s >= 0 else -1) * sqrt(float(g * s * s))
            I.append((col(m1), col(m2), col(m3)))
            V.append(v)
    I = np.array(I)
    return I[:, 0], I[:, 1], I[:, 2], np.array(V)


def w3(q, l):
    """Third-order invariant of rows of q (columns m = 0..l, -1..-l)."""
    a, b, c, v = wigner_lll(l)
    q = np.atleast_2d(q)
    return np.real((v * q[:, a] * q[:, b] * q[:, c]).sum(1))
