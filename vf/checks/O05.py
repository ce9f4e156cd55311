"""Nematic order against the Q tensor in double precision (full build: Eigen)."""
import warnings
import numpy as np
from vf import fr, geo
from vf.geo import f32

PHASES = dict(quick=[dict(variant="rel", dirs=["order"], full=True, cases=25000, cap=60)], thorough=[dict(variant="rel", dirs=["order"], full=True, cases=400000, cap=850)])
RULE = ("random / aligned / planar / three-axis / antiparallel / unnormalised / duplicated orientation sets of 1-3000 vectors; tensors, order, director compared with a double-precision eigendecomposition; "
        "permuted, negated, rescaled and rotated copies; 1-8 threads; one object reused; non-trivial = a set judged; distinct by (kind, size class, transformation, threads)")
REQUIRED = dict(sets=8000, transformed=5000, directors=3000)
ASSUMPTIONS = ["zero vectors are documented as undefined and not judged", "the director is judged only when the largest eigenvalue is separated"]


def make(rng):
    n = int(np.exp(rng.uniform(0, np.log(3000 if rng.random() < 0.1 else 60))))
    kind = ("random", "aligned", "noisy", "planar", "axes", "antiparallel", "uniaxial", "grid")[int(rng.integers(8))]
    u = rng.normal(size=(n, 3))
    d = rng.normal(size=3)
    d /= np.linalg.norm(d)
    if rng.random() < 0.3:
        d = np.eye(3)[int(rng.integers(3))]
    if kind == "aligned":
        u = np.tile(d, (n, 1))
    if kind == "antiparallel":
        u = d * rng.choice([-1, 1], size=n)[:, None]
    if kind == "noisy":
        u = d + 0.3 * u
    if kind == "planar":
        u = u - (u @ d)[:, None] * d
    if kind == "axes":
        u = np.eye(3)[np.arange(n) % 3] * rng.choice([-1, 1], size=n)[:, None]
    if kind == "uniaxial":
        u = u * np.array([1, 1, 5.0])
    if kind == "grid":
        u = rng.integers(-2, 3, size=(n, 3)).astype(float)
    bad = np.linalg.norm(u, axis=1) < 1e-3
    u[bad] = [0, 0, 1.0]
    if rng.random() < 0.5:
        u = u / np.linalg.norm(u, axis=1, keepdims=True)
    elif rng.random() < 0.5:
        u = u * np.exp(rng.uniform(-4, 4, size=(n, 1)))
    return kind, f32(u)


def tensors(u):
    u = u.astype(float)
    u = u / np.linalg.norm(u, axis=1, keepdims=True)
    return 1.5 * u[:, :, None] * u[:, None, :] - 0.5 * np.eye(3)


def judge(mon, nem, u, threads=None):
    T = tensors(u)
    n = len(u)
    pt = nem.particle_tensor
    mon.check(pt.shape == (n, 3, 3), "shape of particle_tensor", shape=pt.shape)
    mon.close(pt, T, "particle_tensor is (3 u u - I)/2", atol=3e-6, rtol=0)
    Q = T.mean(0)
    tol = 3e-6 + 6e-8 * n
    mon.close(nem.nematic_tensor, Q, "nematic_tensor is the mean particle tensor", atol=tol, rtol=0)
    w, V = np.linalg.eigh(Q)
    mon.check(abs(nem.order - w[2]) < 3 * tol + 2e-6, "order %r is not the largest eigenvalue %r of the mean tensor" % (nem.order, w[2]))
    mon.check(-1e-5 <= nem.order <= 1 + 1e-5 + tol, "order lies in [0, 1]", order=nem.order)
    d = np.asarray(nem.director, float)
    mon.check(d.shape == (3,) and abs(np.linalg.norm(d) - 1) < 1e-4, "the director is a unit vector", director=d)
    mon.check(np.linalg.norm(Q @ d - w[2] * d) < 10 * tol + 2e-5, "the director is an eigenvector of the largest eigenvalue", director=d, eigenvalues=w)
    gap = w[2] - w[1]
    if gap > 0.01:
        mon.check(abs(abs(d @ V[:, 2]) - 1) < (20 * tol / gap) ** 2 + 1e-4, "the director is the principal axis", director=d, expected=V[:, 2])
        mon.event("directors")
    mon.event("sets")
    return float(nem.order), d, gap, tol


def case(i, rng, mon):
    kind, u = make(rng)
    mon.describe(kind=kind, orientations=u)
    nem = fr.freud.order.Nematic()
    if rng.random() < 0.4:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            nem.compute(f32(rng.normal(size=(int(rng.integers(1, 200)), 3))))
    nt = int(rng.integers(1, 9))
    with fr.freud.parallel.NumThreads(nt):
        mon.check(nem.compute(u.copy()) is nem, "compute returns the object")
        o, d, gap, tol = judge(mon, nem, u)
        tr = ("permute", "flip", "scale", "rotate", "repeat", "list")[int(rng.integers(6))]
        R = np.eye(3)
        if tr == "permute":
            u2 = u[rng.permutation(len(u))]
        elif tr == "flip":
            u2 = u * rng.choice([-1, 1], size=len(u))[:, None].astype(np.float32)
        elif tr == "scale":
            u2 = u * np.exp(rng.uniform(-2, 2, size=(len(u), 1)))
        elif tr == "rotate":
            q = geo.random_quats(rng, 1).astype(float)
            u2 = geo.qrot(q, u.astype(float))
            R = geo.qrot(np.tile(q, (3, 1)), np.eye(3)).T
        elif tr == "repeat":
            u2 = np.tile(u, (int(rng.integers(2, 4)), 1))
        else:
            u2 = u.astype(float)
        u2 = f32(u2)
        nem.compute(u2)
    o2, d2, _, tol2 = judge(mon, nem, u2)
    mon.check(abs(o - o2) < 4 * (tol + tol2) + 1e-5, "order changed from %r to %r under '%s'" % (o, o2, tr))
    if gap > 0.05:
        mon.check(abs(abs(d2 @ (R @ d)) - 1) < 1e-3, "director does not follow the particles under '%s'" % tr, before=d, after=d2)
    mon.event("transformed")
    mon.sig(kind, int(np.log2(len(u) + 1)), tr, nt)
    if rng.random() < 0.05:
        e = rng.integers(3)
        b = (u[:, :2], np.zeros((0, 3), np.float32) if False else u.ravel(), np.ones((len(u), 4), np.float32))[int(e)]
        mon.raises((ValueError, TypeError, IndexError, RuntimeError), lambda: nem.compute(b), "malformed orientations are rejected")
        mon.event("rejections")
