"""Rotational autocorrelation against the Chebyshev value of the relative rotation."""
import numpy as np
from vf import fr, geo
from vf.geo import f32, qmul, qconj

PHASES = dict(quick=[dict(variant="rel", dirs=["order"], cases=25000, cap=70)], thorough=[dict(variant="rel", dirs=["order"], cases=400000, cap=850)])
RULE = ("random, unchanged, special and near-identical orientation pairs x even l up to 40 x sizes; every particle's value compared with U_l(cos(theta/2))/(l+1), order with their mean; "
        "common rotations and sign changes must not matter; non-trivial = at least one particle judged; distinct by (l, size class, kind)")
REQUIRED = dict(particles_judged=50000, unchanged=1000)


def cheb(l, x):
    a, b = np.ones_like(x), 2 * x
    if l == 0:
        return a
    for _ in range(l - 1):
        a, b = b, 2 * x * b - a
    return b


def case(i, rng, mon):
    l = 2 * int(rng.integers(0, 11)) if rng.random() < 0.85 else 2 * int(rng.integers(0, 21))
    n = int(np.exp(rng.uniform(0, np.log(200 if l < 12 else 40))))
    if rng.random() < 0.004:
        n = int(np.exp(rng.uniform(np.log(200), np.log(60000 if l < 12 else 3000))))
    kind = ("random", "random", "same", "near", "special", "mixed")[int(rng.integers(6))]
    ref, q = geo.random_quats(rng, n), geo.random_quats(rng, n)
    if kind == "same":
        q = ref.copy()
    elif kind == "near":
        q = ref + rng.normal(size=(n, 4)) * 10.0 ** -rng.integers(1, 5)
        q = f32(q / np.linalg.norm(q, axis=1, keepdims=True))
    elif kind == "special":
        S = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [-1, 0, 0, 0], [np.sqrt(.5), 0, 0, np.sqrt(.5)], [.5, .5, .5, .5]])
        ref, q = f32(S[rng.integers(0, 7, size=n)]), f32(S[rng.integers(0, 7, size=n)])
    elif kind == "mixed":
        m = rng.random(n) < 0.5
        q[m] = ref[m]
    mon.describe(l=l, ref=ref, orientations=q, kind=kind)
    ra = fr.freud.order.RotationalAutocorrelation(l)
    mon.check(ra.l == l, "l")
    if rng.random() < 0.3:
        m = int(rng.integers(1, 50))
        ra.compute(geo.random_quats(rng, m), geo.random_quats(rng, m))
    r = ra.compute(ref, q)
    mon.check(r is ra, "compute returns the object")
    po, o = ra.particle_order, ra.order
    mon.check(po.shape == (n,), "one value per particle")
    x = (ref.astype(float) * q.astype(float)).sum(1)
    want = cheb(l, np.clip(x, -1, 1)) / (l + 1)
    # single-precision products perturb cos(theta/2); |U_l'|/(l+1) <= l(l+2)/3; norms enter to the power l
    tol = 4e-7 * (l * (l + 2) / 3 + l + 3)
    e = np.abs(po - want)
    if e.max() > tol:
        k = int(e.argmax())
        mon.check(False, "particle %d: %r, expected U_%d(cos(theta/2))/%d = %r" % (k, po[k].item(), l, l + 1, want[k]), tolerance=tol)
    mon.check(np.all(np.abs(po) <= 1 + tol), "bounded by 1")
    mon.check(abs(o - po.real.astype(float).mean()) < 1e-6 + 2e-7 * n, "order is the mean of the real parts", order=o, mean=po.real.mean())
    if kind == "same":
        mon.check(abs(o - 1) < tol, "unchanged orientations have order 1", order=o)
        mon.event("unchanged", n)
    mon.event("particles_judged", n)
    if rng.random() < 0.3:
        g = geo.random_quats(rng, 1)
        s = rng.choice([-1, 1], size=(n, 1))
        p2 = ra.compute(f32(qmul(g, ref)), f32(qmul(g, q) * s)).particle_order
        mon.close(p2, po, "a common rotation or a sign change of quaternions changes nothing", atol=2 * tol, rtol=0)
    if rng.random() < 0.02:
        for bad in (1, 3, -2):
            mon.raises(ValueError, lambda: fr.freud.order.RotationalAutocorrelation(bad), "l = %d" % bad)
        mon.raises(Exception, lambda: ra.compute(ref, geo.random_quats(rng, n + 1)), "different numbers of orientations")
    mon.sig(l, int(np.log2(n)), kind)
