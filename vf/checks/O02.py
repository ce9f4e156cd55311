"""Cubatic order: tensors, order and per-particle order from their definitions; reproducibility."""
import numpy as np
from vf import fr, geo
from vf.geo import f32, qrot, qmul

PHASES = dict(quick=[dict(variant="rel", dirs=["order"], cases=15000, cap=70)],
              thorough=[dict(variant="rel", dirs=["order"], cases=150000, cap=850)])
RULE = ("random / aligned / symmetry-equivalent / unnormalised-free orientation sets x annealing parameters x seeds x replicates x 1-8 threads (and randomly scheduled loops in the second build); "
        "tensors compared with double precision, reported order with the reported tensors, repeated runs bit by bit; non-trivial = a computation judged; distinct by (size class, kind, replicates, threads)")
REQUIRED = dict(computed=2000, reruns=1000, aligned=200)
ASSUMPTIONS = ["annealing quality is judged only for perfectly aligned particles and slow cooling"]

I3 = np.eye(3)
R4 = 0.4 * (np.einsum("ij,kl->ijkl", I3, I3) + np.einsum("ik,jl->ijkl", I3, I3) + np.einsum("il,jk->ijkl", I3, I3))


def tens(q):
    """2 sum of v^4 for the three rotated axes, per quaternion."""
    q = np.atleast_2d(np.asarray(q, float))
    T = np.zeros((len(q), 3, 3, 3, 3))
    for e in I3:
        v = qrot(q, e[None])
        T += np.einsum("ni,nj,nk,nl->nijkl", v, v, v, v)
    return 2 * T


def cube_group(rng, n):
    a = np.sqrt(.5)
    g = [[1, 0, 0, 0], [a, a, 0, 0], [a, 0, a, 0], [a, 0, 0, a], [0, 1, 0, 0], [0, 0, 1, 0], [.5, .5, .5, .5], [.5, -.5, .5, -.5], [0, a, a, 0]]
    return np.array(g)[rng.integers(0, len(g), size=n)]


def case(i, rng, mon):
    n = int(np.exp(rng.uniform(0, np.log(60)))) if rng.random() < 0.995 else int(np.exp(rng.uniform(np.log(60), np.log(6000))))
    kind = ("random", "random", "aligned", "equivalent", "noisy", "single")[int(rng.integers(6))]
    if kind == "single":
        n = 1
    q = geo.random_quats(rng, n)
    if kind in ("aligned", "equivalent", "noisy"):
        q = np.tile(geo.random_quats(rng, 1), (n, 1)).astype(float)
        if kind == "equivalent":
            q = qmul(q, cube_group(rng, n))
        if kind == "noisy":
            q = q + rng.normal(size=q.shape) * 0.1
        q = f32(q / np.linalg.norm(q, axis=1, keepdims=True))
    aligned = kind in ("aligned", "equivalent", "single")
    slow = aligned and rng.random() < 0.5
    t0 = 5.0 if slow else float(np.exp(rng.uniform(-3, 3)))
    tf = 1e-3 if slow else t0 * float(np.exp(rng.uniform(-6, -0.1)))
    tf = max(tf, 2e-6)
    sc = 0.97 if slow else float(rng.uniform(0.1, 0.95))
    R = int(rng.integers(1, 7)) if rng.random() < 0.7 else 1
    if slow:
        R = 3
    seed = int(rng.integers(0, 2 ** 32)) if rng.random() < 0.8 else int(rng.integers(0, 3))
    mon.describe(orientations=q, t=(t0, tf, sc), replicates=R, seed=seed, kind=kind)
    mk = lambda R=R: fr.freud.order.Cubatic(t0, tf, sc, n_replicates=R, seed=seed)
    c = mk()
    mon.check(c.n_replicates == R and c.seed == seed and abs(c.scale - sc) < 1e-6, "parameters")
    if rng.random() < 0.3:
        c.compute(geo.random_quats(rng, int(rng.integers(1, 80))))
    r = c.compute(q)
    mon.check(r is c, "compute returns the object")

    def results(c):
        return (float(c.order), np.array(c.orientation), np.array(c.global_tensor), np.array(c.cubatic_tensor), np.array(c.particle_order))
    o, ori, G, C, po = results(c)
    mon.check(G.shape == (3, 3, 3, 3) and C.shape == (3, 3, 3, 3) and po.shape == (n,) and ori.shape == (4,), "shapes of the results")
    T = tens(q)
    Gw = T.mean(0) - R4
    mon.close(G, Gw, "global_tensor is the mean particle tensor minus its isotropic part", atol=2e-6 + (1e-7 * n if n < 100 else 1e-5 + 2e-8 * n), rtol=1e-5)
    mon.check(abs(np.linalg.norm(ori) - 1) < 2e-3, "reported orientation is a unit quaternion", norm=np.linalg.norm(ori))
    Cw = tens(ori)[0] - R4
    mon.close(C, Cw, "cubatic_tensor is the tensor of the reported orientation", atol=5e-6, rtol=1e-5)
    Gd, Cd = G.astype(float), C.astype(float)
    ow = 1 - ((Gd - Cd) ** 2).sum() / (Cd ** 2).sum()
    mon.check(abs(o - ow) < 2e-5, "order is %r, its definition gives %r" % (o, ow))
    mon.check(o <= 1 + 1e-5, "order never exceeds 1", order=o)
    Tp = T - R4
    pw = 1 - ((Gd[None] - Tp) ** 2).sum((1, 2, 3, 4)) / (Tp ** 2).sum((1, 2, 3, 4))
    mon.close(po, pw, "particle_order", atol=3e-5, rtol=1e-5)
    if aligned:
        mon.close(po, np.ones(n), "aligned particles have particle_order 1", atol=1e-4)
        if slow:
            mon.event("aligned")
            mon.check(o > 0.97, "aligned particles: order %r" % o)
    mon.event("computed")
    # same inputs and seed: the same result whatever the number of threads or the schedule
    for k in range(2):
        nt = int(rng.integers(1, 9))
        fr.freud.parallel.set_num_threads(nt)
        c2 = c if rng.random() < 0.3 else mk()
        c2.compute(q)
        for a, b, name in zip(results(c2), (o, ori, G, C, po), ("order", "orientation", "global_tensor", "cubatic_tensor", "particle_order")):
            mon.check(np.array_equal(a, b, equal_nan=True), "%s depends on the number of threads or earlier computations" % name, first=b, second=a, threads=nt)
        mon.event("reruns")
    if rng.random() < 0.3:
        c3 = mk(R + int(rng.integers(1, 5))).compute(q)
        mon.check(c3.order >= o, "more replicates lower the order", fewer=o, more=c3.order)
    if rng.random() < 0.01:
        Cu = fr.freud.order.Cubatic
        for a in ((0.1, 1.0, 0.9), (1.0, 1e-7, 0.9), (1, 0.1, 1.0), (1, 0.1, 0.0), (1, 0.1, 0.9, 0)):
            mon.raises(ValueError, lambda: Cu(*a), "Cubatic%s" % (a,))
    mon.sig(kind, int(np.log2(n)), R, slow, int(np.log2(t0 / tf)))
