"""Steinhardt, SolidLiquid and ContinuousCoordination against their definitions (full build: fsph, voro++)."""
import warnings
import numpy as np
from vf import fr, geo, nb, hist, sph
from vf.geo import f32
from vf.checks.C01 import components

PHASES = dict(quick=[dict(variant="rel", dirs=["order", "locality", "cluster"], full=True, cases=6000, cap=90)],
              thorough=[dict(variant="rel", dirs=["order", "locality", "cluster"], full=True, cases=150000, cap=800)])
RULE = ("random, lattice and lattice-with-noise systems (2D and 3D, triclinic) x neighbor specifications (ball, k nearest, stored lists with arbitrary vectors and weights, bonds to other images, along the axes) "
        "x l (0-20, several at once) x average x wl x weighted x wl_normalize; harmonics, ql, wl, system order compared with double-precision harmonics and exact 3j symbols; solid bonds, counts and clusters from "
        "the reported bond products; continuous coordinations from the Voronoi cells; one object reused; non-trivial = at least one particle judged; distinct by (class, box class, kind, options, l)")
REQUIRED = dict(steinhardt_particles=10000, wl_particles=3000, averaged_particles=3000, system_orders=700, solid_bonds=5000, coordinations=1500, empty_particles=100)
ASSUMPTIONS = ["particles whose weights sum to (nearly) zero are not judged", "Voronoi cells and neighbor lists are taken as reported (V01 and N01-N03 decide those)"]


def system(rng, nmax=40, dim=None):
    """A system and a neighbor list with exactly known bonds: (ob, p, neighbors argument, bonds i, j, v, w)."""
    L = fr.freud.locality
    if rng.random() < 0.25:          # lattice, possibly with noise
        uc = fr.freud.data.UnitCell
        cell = (uc.fcc, uc.bcc, uc.sc, uc.square, uc.hex)[int(rng.integers(5 if dim is None else 3))]()
        ns = int(rng.integers(2, 4))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            box, p = cell.generate_system(ns, scale=float(rng.uniform(1, 4)), sigma_noise=float(rng.choice([0, 0.05])), seed=int(rng.integers(1e6)))
        ob = geo.OBox(box.Lx, box.Ly, box.Lz, box.xy, box.xz, box.yz, is2D=box.is2D)
        kind = "lattice"
    else:
        ob, p, _, tol, mode = nb.rand_system(rng, nmax=nmax, dim=dim, separate=False)
        kind = mode
    box = ob.freud()
    n = len(p)
    k = ("list", "ball", "nearest", "stored")[int(rng.integers(4))]
    arg = None
    if k == "list":
        m = int(rng.integers(0, 5 * n + 1))
        i, j = np.sort(rng.integers(0, n, size=m)), rng.integers(0, n, size=m)
        v = hist.rand_vectors(rng, m, ob, exact=rng.random() < 0.4)
        w = f32(rng.uniform(0, 2, size=m) * (rng.random(m) < 0.95) * (rng.choice([-1, 1, 1], size=m) if rng.random() < 0.15 else 1))
        arg = L.NeighborList.from_arrays(n, n, i.astype(np.uint32), j.astype(np.uint32), v, weights=w)
        nl = arg
    else:
        if k == "nearest":
            a = dict(num_neighbors=int(rng.integers(1, 13)))
        else:
            a = dict(r_max=float(np.float32(ob.rlim() * rng.uniform(0.2, 0.97))))
        a["exclude_ii"] = True
        if rng.random() < 0.1:
            a["exclude_ii"] = False
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            nl = L.AABBQuery(box, p).query(p, a).toNeighborList()
        arg = nl if k == "stored" else a
    i, j, _, v, w = nb.nlist_cols(nl)
    sysm = (box, p) if rng.random() < 0.6 else L.AABBQuery(box, p)
    return ob, p, sysm, arg, i, j, v.astype(float), w.astype(float), "%s/%s" % (kind, k)


def steinhardt(rng, mon):
    ob, p, sysm, arg, bi, bj, bv, bw, kind = system(rng)
    n = len(p)
    nl_ = int(rng.integers(1, 4)) if rng.random() < 0.4 else 1
    ls = [int(x) for x in rng.integers(0, 13, size=nl_)]
    if rng.random() < 0.15:
        ls[0] = int(rng.integers(13, 21))
    average, wl, weighted, wn = (bool(x) for x in rng.random(4) < 0.5)
    opts = dict(average=average, wl=wl, weighted=weighted, wl_normalize=wn)
    S = fr.freud.order.Steinhardt(ls if nl_ > 1 or rng.random() < 0.3 else ls[0], **opts)
    mon.check(S.l == (ls[0] if nl_ == 1 else ls) and (S.average, S.wl, S.weighted, S.wl_normalize) == (average, wl, weighted, wn), "parameters")
    mon.describe(l=ls, options=opts, box=ob.params(), points=p, kind=kind, bonds=np.stack([bi, bj], 1) if len(bi) < 80 else len(bi), neighbors=arg if isinstance(arg, dict) else "list")
    if rng.random() < 0.3:
        q = f32(rng.uniform(-3, 3, size=(int(rng.integers(2, 50)), 3)))
        S.compute((fr.freud.box.Box.cube(6), q), neighbors=dict(num_neighbors=1))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        mon.check(S.compute(sysm, neighbors=arg) is S, "compute returns the object")
    cnt = np.bincount(bi, minlength=n)
    w = bw if weighted else np.ones(len(bi))
    tw = np.bincount(bi, weights=w, minlength=n)
    ab = np.bincount(bi, weights=np.abs(w), minlength=n)
    good = (cnt > 0) & (np.abs(tw) > 1e-3 + 1e-2 * ab)
    # a sum over bonds of i and i itself, for the average
    good2 = good.copy()
    np.logical_and.at(good2, bi, good[bj])
    Y = sph.ylm_of(max(ls), bv)
    H = S.particle_harmonics
    PO, QL, SO = S.particle_order, S.ql, S.order
    if nl_ == 1:
        H, SO = [H], [SO]
        mon.check(PO.shape == (n,) and QL.shape == (n,), "one value per particle", shape=PO.shape)
        PO, QL = PO[:, None], QL[:, None]
    mon.check(PO.shape == (n, nl_) and QL.shape == (n, nl_) and len(H) == nl_ and len(SO) == nl_, "one value per particle and l")
    for a, l in enumerate(ls):
        m = 2 * l + 1
        mon.check(H[a].shape == (n, m), "shape of the harmonics", shape=H[a].shape)
        tb = sph.ylm_tol(l, bv)
        q, t = np.zeros((n, m), complex), np.zeros(n)
        np.add.at(q, bi, w[:, None] * Y[l])
        np.add.at(t, bi, np.abs(w) * tb)
        with np.errstate(all="ignore"):
            q, t = q / tw[:, None], (t + 2e-7 * cnt * ab * np.sqrt(m)) / np.abs(tw)
        e = np.abs(H[a] - q).max(1)
        bad = good & ~(e <= t)
        if bad.any():
            x = int(np.flatnonzero(bad)[0])
            mon.check(False, "q_lm of particle %d differ by %g from the mean of Y_lm over its bonds (l=%d)" % (x, e[x], l), got=H[a][x], expected=q[x], tolerance=t[x], vectors=bv[bi == x], weights=w[bi == x])
        c = np.sqrt(4 * np.pi / m)
        d = t * np.sqrt(m)
        nq = np.linalg.norm(q, axis=1)
        ok = np.abs(QL[:, a] - c * nq) <= c * d + 1e-5 * c * nq + 1e-6
        mon.check(np.all(ok | ~good), "ql is the norm of q_lm, not averaged over neighbors", l=l, got=QL[~ok & good, a], expected=(c * nq)[~ok & good])
        none = cnt == 0
        mon.check(np.all(np.isnan(PO[none, a])), "particles without neighbors have order nan", got=PO[none, a])
        mon.event("empty_particles", int(none.sum()))
        mon.event("steinhardt_particles", int(good.sum()))
        g = good
        if average:
            g = good2
            qa, ta = q.copy(), t.copy()
            np.add.at(qa, bi, q[bj])
            np.add.at(ta, bi, t[bj])
            q, t = qa / (cnt + 1)[:, None], ta / (cnt + 1) + 2e-7 * cnt
            d = t * np.sqrt(m)
            nq = np.linalg.norm(q, axis=1)
            mon.event("averaged_particles", int(g.sum()))

        def order(q, nq, d):
            if not wl:
                return c * nq, c * d + 1e-5 * c * nq + 1e-6
            W = sph.w3(q, l)
            tol = 3 * nq ** 2 * d + 3 * nq * d ** 2 + d ** 3 + 2e-5 * nq ** 3 + 1e-9
            if wn:
                with np.errstate(all="ignore"):
                    r = d / nq
                    W, tol = W / nq ** 3, tol / nq ** 3 + 3 * r + 1e-4
                    tol = np.where(r < 0.03, tol, np.inf)
            return W, tol
        want, tol = order(q, nq, d)
        e = np.abs(PO[:, a] - want)
        ok = (e <= tol) | ~g | np.isinf(tol)
        if not ok.all():
            x = int(np.flatnonzero(~ok)[0])
            mon.check(False, "order of particle %d (l=%d) is %r, its definition gives %r" % (x, l, PO[x, a].item(), want[x].item()), tolerance=tol[x], options=opts)
        if wl:
            mon.event("wl_particles", int((g & np.isfinite(tol)).sum()))
        if n and g.all():
            Q = q.mean(0)
            D = d.mean() + 1e-7 * n * nq.max()
            want, tol = order(Q[None], np.linalg.norm(Q)[None], np.array([D]))
            if np.isfinite(tol[0]):
                mon.check(abs(SO[a] - want[0]) <= tol[0], "system order (l=%d) is %r, that of the mean q_lm is %r" % (l, SO[a], want[0].item()), tolerance=tol[0], options=opts)
                mon.event("system_orders")
    if good.any():
        mon.sig("steinhardt", ob.key(), kind, average, wl, weighted, wn, *ls)
    if rng.random() < 0.02:
        bad = int(rng.integers(21, 30))
        mon.raises((IndexError, ValueError, RuntimeError), lambda: fr.freud.order.Steinhardt(bad, wl=True).compute(sysm, neighbors=arg), "wl beyond l = 20")
        mon.raises(ValueError, lambda: fr.freud.order.Steinhardt([]), "no l")
        mon.raises((TypeError, ValueError), lambda: fr.freud.order.Steinhardt(-1), "negative l")


def solidliquid(rng, mon):
    ob, p, sysm, arg, bi, bj, bv, bw, kind = system(rng, nmax=60)
    n = len(p)
    l = int(rng.integers(0, 13))
    norm = bool(rng.random() < 0.6)
    qt = float(np.float32(rng.choice([0.0, 0.1, 0.3, 0.5, 0.7, 0.9]))) * (1 if norm else 0.3)
    st = int(rng.integers(0, 9))
    given = [st, st, st + 0.4, float(st), np.int64(st)][int(rng.integers(5))]      # others are rounded down, with a warning
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        S = fr.freud.order.SolidLiquid(l, qt, given, normalize_q=norm)
    mon.check(isinstance(given, int) or isinstance(given, np.integer) or any(issubclass(w.category, RuntimeWarning) for w in ws), "a fractional solid_threshold is warned about")
    mon.check(S.l == l and abs(S.q_threshold - qt) < 1e-6 and S.solid_threshold == st and S.normalize_q == norm, "parameters")
    mon.describe(l=l, q_threshold=qt, solid_threshold=st, normalize_q=norm, box=ob.params(), points=p, kind=kind, neighbors=arg if isinstance(arg, dict) else "list")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if rng.random() < 0.3:
            S.compute((fr.freud.box.Box.cube(6), f32(rng.uniform(-3, 3, size=(30, 3)))), neighbors=dict(num_neighbors=3))
        mon.check(S.compute(sysm, neighbors=arg) is S, "compute returns the object")
    nl = S.nlist
    mon.equal(nl[:], np.stack([bi, bj], 1), "nlist holds the bonds of the neighbor query")
    cnt = np.bincount(bi, minlength=n)
    Y = sph.ylm_of(l, bv)[l]
    q, t = np.zeros((n, 2 * l + 1), complex), np.zeros(n)
    np.add.at(q, bi, Y)
    np.add.at(t, bi, sph.ylm_tol(l, bv))
    with np.errstate(all="ignore"):
        q, t = q / cnt[:, None], t / cnt + 2e-7 * cnt
    good = cnt > 0
    H = S.particle_harmonics
    mon.check(H.shape == q.shape, "shape of the harmonics")
    mon.check(np.all((np.abs(H - q).max(1) <= t)[good]), "harmonics of the particles", l=l)
    got = S.ql_ij
    mon.check(got.shape == (len(bi),), "one product per bond")
    nq, d = np.linalg.norm(q, axis=1), t * np.sqrt(2 * l + 1)
    want = np.real((q[bi] * np.conj(q[bj])).sum(1))
    tol = nq[bi] * d[bj] + nq[bj] * d[bi] + d[bi] * d[bj] + 1e-5 * nq[bi] * nq[bj] + 1e-9
    if norm:
        with np.errstate(all="ignore"):
            f = nq[bi] * nq[bj]
            want, tol = want / f, tol / f + d[bi] / nq[bi] + d[bj] / nq[bj] + 1e-5
    ok = (np.abs(got - want) <= tol) | ~(good[bi] & good[bj]) | ~(tol < 0.3)
    if not ok.all():
        x = int(np.flatnonzero(~ok)[0])
        mon.check(False, "ql_ij of bond %d-%d is %r, expected %r" % (bi[x], bj[x], got[x].item(), want[x].item()), tolerance=tol[x])
    with np.errstate(invalid="ignore"):
        solid = got > np.float32(qt)
    con = np.bincount(bi[solid], minlength=n)
    mon.equal(S.num_connections, con, "num_connections counts the bonds with ql_ij above the threshold")
    s = con >= st
    keep = solid & s[bi] & s[bj]
    lab = components(n, bi[keep], bj[keep])
    idx = S.cluster_idx
    mon.check(idx.shape == (n,), "one cluster per particle")
    ref = np.array([np.flatnonzero(lab == lab[x])[0] for x in range(n)])
    rep = np.array([np.flatnonzero(idx == idx[x])[0] for x in range(n)])
    mon.equal(rep, ref, "clusters are the connected components of the solid bonds between solid particles")
    sizes = np.bincount(idx)
    mon.equal(S.cluster_sizes, sizes, "cluster sizes")
    mon.check(np.all(np.diff(sizes) <= 0), "clusters are numbered by decreasing size", sizes=sizes)
    mon.check(S.largest_cluster_size == sizes.max(), "largest cluster")
    mon.event("solid_bonds", int(solid.sum()))
    if len(bi):
        mon.sig("solid", ob.key(), kind, l, norm, min(int(sizes.max()), 9), len(sizes) > 1)
    if rng.random() < 0.02:
        mon.raises(ValueError, lambda: fr.freud.order.SolidLiquid(6, -0.1, 3), "negative threshold")


def coordination(rng, mon):
    dim = 2 if rng.random() < 0.4 else 3
    ob = geo.random_box(rng, dim, maxtilt=0.5, aniso=rng.random() < 0.4)
    n = int(rng.integers(4, 60))
    p = f32(ob.abs(rng.random((n, 3))))
    box = ob.freud()
    powers = [float(np.float32(x)) for x in rng.choice([1.0, 2.0, 3.0, 0.0, -1.0, 1.5, 4.0], size=int(rng.integers(0, 4)))]
    lg, ex = (bool(x) for x in rng.random(2) < 0.6)
    if rng.random() < 0.1:
        C, powers, lg, ex = fr.freud.order.ContinuousCoordination(), [2.0], True, True
    else:
        C = fr.freud.order.ContinuousCoordination(powers, lg, ex)
    mon.check(list(C.powers) == powers and C.compute_log == lg and C.compute_exp == ex, "parameters", powers=C.powers)
    nc = len(powers) + lg + ex
    mon.check(C.number_of_coordinations == nc, "number of coordinations")
    mon.describe(box=ob.params(), points=p, powers=powers, log=lg, exp=ex)
    vor = fr.freud.locality.Voronoi()
    vor.compute((box, p))
    if rng.random() < 0.5:
        C.compute(voronoi=vor)
    else:
        C.compute((box, p))
    got = C.coordination
    mon.check(got.shape == (n, nc), "shape", shape=got.shape)
    i, j, dist, v, w = nb.nlist_cols(vor.nlist)
    V = np.array(vor.volumes).astype(float)
    part = w.astype(float) * dist / (2 * dim) / V[i]
    N = np.bincount(i, minlength=n).astype(float)
    want = []
    with np.errstate(all="ignore"):
        for m in powers:
            want.append(N ** (2 - m) / np.bincount(i, weights=part ** m, minlength=n))
        if lg:
            want.append(-np.bincount(i, weights=np.log(part), minlength=n) / np.log(N))
        if ex:
            want.append(np.bincount(i, weights=np.exp(part - 1 / N[i]), minlength=n))
    if nc:
        want = np.stack(want, 1)
        with np.errstate(all="ignore"):
            ok = (np.abs(got - want) <= 1e-4 * np.abs(want) + 1e-6) | ~np.isfinite(want) | (np.abs(want) < 1e-30) | (np.abs(want) > 1e30)
        if not ok.all():
            x, y = np.argwhere(~ok)[0]
            mon.check(False, "coordination %d of particle %d is %r, its definition gives %r" % (y, x, got[x, y].item(), want[x, y].item()))
        mon.equal(C.particle_order, got, "particle_order is the coordination")
        mon.event("coordinations", n)
        mon.sig("coordination", ob.key(), len(powers), lg, ex, int(np.log2(n)))


def case(i, rng, mon):
    r = rng.random()
    if r < 0.6:
        steinhardt(rng, mon)
    elif r < 0.85:
        solidliquid(rng, mon)
    else:
        coordination(rng, mon)
