BUGS = []
def bug(id, property, edits, needs, breaks, demo, checks=None):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, checks=checks or [property]))

bug("d01-last-bin", "D01", [("freud/util/Histogram.h",
"""        // Avoid rounding leading to overflow.
        if (bin == m_nbins)
        {
            return bin - 1;
        }
        return bin;
""", """        return bin;
""")],
"a bond whose length is the last float below r_max, with a number of bins for which the scaled value rounds up to it",
"the bond is not put into the last bin",
"""
import numpy as np, freud
box = freud.box.Box.cube(100)
found = 0
for r_max in np.linspace(1, 9, 33).astype(np.float32):
    d = np.nextafter(r_max, np.float32(0))
    for bins in (3, 7, 10, 13, 23, 49, 50, 99, 113):
        nl = freud.locality.NeighborList.from_arrays(2, 2, [0], [1], [[d, 0, 0]])
        if nl.distances[0] >= r_max: continue
        rdf = freud.density.RDF(bins, float(r_max)).compute((box, [[0, 0, 0], [1, 0, 0]]), neighbors=nl)
        assert rdf.bin_counts.sum() == 1 and rdf.bin_counts[-1] == 1, (r_max, bins)
        found += 1
print(found)
""")

bug("n01-plane-sign", "N01", [("freud/box/Box.h",
"(m_xy * m_yz - m_xz) * (m_xy * m_yz - m_xz)", "(m_xy * m_yz + m_xz) * (m_xy * m_yz + m_xz)")],
"a box with all three tilt factors, whose x planes are the closest ones",
"the distance between the box planes is wrong: valid cutoffs are rejected and too large ones accepted, with wrong pairs",
"""
import numpy as np, freud
box = freud.box.Box(10, 30, 30, 1.0, 0.9, 0.9)   # planes in x are 10/sqrt(2) apart
pts = np.random.default_rng(0).random((50, 3)) * 5
r = 10 / np.sqrt(2) / 2 * 0.98
n = len(freud.locality.AABBQuery(box, pts).query(pts, dict(mode="ball", r_max=r)).toNeighborList())
box = freud.box.Box(10, 30, 30, 1.0, -0.9, 0.9)
try:
    freud.locality.AABBQuery(box, pts).query(pts, dict(mode="ball", r_max=r)).toNeighborList()
except RuntimeError: pass
else: raise SystemExit("too large r_max accepted")
""")

bug("n02-first-image", "N02", [("freud/locality/AABBQuery.cc",
"""                        if ((m_all_bonds_minimum_distance.count(nb_point_idx) == 0)
                            || m_all_bonds_minimum_distance[nb_point_idx].getDistance() > nb_distance)
""", """                        if (m_all_bonds_minimum_distance.count(nb_point_idx) == 0)
""")],
"a nearest-neighbor search that has to go beyond half the box, where several images of a point are in range",
"some image of the neighbor is returned instead of the closest one",
"""
import numpy as np, freud
rng = np.random.default_rng(1)
box = freud.box.Box(4, 5, 7, 0.4, 0.1, -0.3)
pts = box.make_absolute(rng.random((12, 3)))
nl = freud.locality.AABBQuery(box, pts).query(pts, dict(mode="nearest", num_neighbors=11, exclude_ii=True)).toNeighborList()
M = box.to_matrix()
sh = np.array([[i, j, k] for i in range(-2, 3) for j in range(-2, 3) for k in range(-2, 3)]) @ M.T
for i, j, d in zip(nl.query_point_indices, nl.point_indices, nl.distances):
    ref = np.linalg.norm(pts[j] - pts[i] + sh, axis=1).min()
    assert abs(ref - d) < 1e-3, (i, j, ref, d)
""")

bug("x04-query-dict", "X04", [("freud/locality.py",
"""    query_args = neighbors.copy()
    query_args.setdefault("exclude_ii", query_points is None)
    nq = _make_default_nq(system)""",
"""    query_args = neighbors
    query_args.setdefault("exclude_ii", query_points is None)
    nq = _make_default_nq(system)""")],
"one dict of query arguments reused for an Interface and then for a computation without query points",
"the user's dict is modified, so that later computations with it treat points as their own neighbors",
"""
import numpy as np, freud
box = freud.box.Box.cube(10)
a = np.array([[0, 0, 0], [1, 0, 0]]); b = np.array([[0, 1, 0]])
args = dict(mode="ball", r_max=2.0)
freud.interface.Interface().compute((box, a), b, neighbors=args)
rdf = freud.density.RDF(10, 2).compute((box, a), neighbors=args)
print(args, rdf.bin_counts)
assert args == dict(mode="ball", r_max=2.0) and rdf.bin_counts.sum() == 2
""")

bug("n05-rad-window", "N05", [("freud/locality/FilterRAD.cc",
"                for (unsigned int k = 0; k < j; k++)", "                for (unsigned int k = 0; k < std::min(j, 24U); k++)")],
"RAD-open with many candidates and a large particle that blocks but is not among the closest",
"particles blocked by a large neighbor further out are kept",
"""
import numpy as np, freud
rng = np.random.default_rng(3)
box = freud.box.Box.cube(100)
shell = rng.normal(size=(40, 3)); shell[:, 0] = -abs(shell[:, 0]); shell /= np.linalg.norm(shell, axis=1)[:, None]
pts = np.vstack([[[0, 0, 0]], shell, [[5, 0, 0]], [[8, .1, 0]]]).astype(np.float32)
radii = np.ones(len(pts)); radii[-2] = 3
f = freud.locality.FilterRAD(allow_incomplete_shell=True, terminate_after_blocked=False)
f.compute((box, pts), points_radii=radii, neighbors=freud.locality.NeighborList.all_pairs((box, pts)))
nl = f.filtered_nlist
got = set(nl.point_indices[nl.query_point_indices == 0])
print(sorted(got))
assert len(pts) - 1 not in got and len(pts) - 2 in got
""")

bug("n05-sann-incomplete", "N05", [("freud/locality/FilterSANN.cc",
"            if (m == num_unfiltered_neighbors)\n", "            if (m == num_unfiltered_neighbors && m > 3)\n")],
"FilterSANN on a system where some particle has three or fewer candidate neighbors",
"incomplete neighbor shells are returned silently instead of raising",
"""
import numpy as np, freud
box = freud.box.Box.cube(30)
rng = np.random.default_rng(0)
pts = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0]])
for kw, ok in ((False, False), (True, True)):
    f = freud.locality.FilterSANN(allow_incomplete_shell=kw)
    try:
        f.compute((box, pts), neighbors=dict(mode="ball", r_max=3)); res = True
    except RuntimeError: res = False
    assert res == ok
""")

bug("n06-buffer-y", "N06", [("freud/locality/PeriodicBuffer.cc", "std::ceil(buff.y / L.y)", "std::ceil(buff.y / L.x)")],
"a box that is much shorter in y than in x with a y buffer longer than the box",
"images needed to fill the buffer are missing",
"""
import numpy as np, freud
box = freud.box.Box(20, 5, 8)
pts = np.zeros((1, 3))
pb = freud.locality.PeriodicBuffer().compute((box, pts), [0, 11.0, 0], include_input_points=True)
ys = sorted(pb.buffer_points[:, 1].round(3))
print(ys)
assert ys == [-10, -5, 0, 5, 10]
""")

bug("d02-conj", "D02", [("freud/density/CorrelationFunction.cc", "    return std::conj(x) * y;", "    return x * std::conj(y);")],
"complex values with a bond structure that is not symmetric (query points with their own values)",
"the correlation is conjugated",
"""
import numpy as np, freud
box = freud.box.Box.cube(20)
cf = freud.density.CorrelationFunction(4, 4.0).compute((box, [[0, 0, 0]]), np.array([1j]), query_points=[[1.5, 0, 0]], query_values=np.array([2 + 1j]), neighbors=dict(mode="ball", r_max=4))
print(cf.correlation)
assert np.allclose(cf.correlation, [0, np.conj(1j) * (2 + 1j), 0, 0])
""")

bug("d02-alias", "X04", [("freud/density/CorrelationFunction.cc",
"    m_correlation_function = util::Histogram<std::complex<double>>(m_histogram.getAxes());\n    m_local_correlation_function.reset();",
"    m_local_correlation_function.reset();")],
"keeping the result of one CorrelationFunction computation while computing again with the same object",
"arrays returned earlier change when compute is called again",
"""
import numpy as np, freud
box = freud.box.Box.cube(20)
pts = np.random.default_rng(0).random((30, 3)) * 6
cf = freud.density.CorrelationFunction(8, 4.0)
v = np.exp(1j * np.arange(30))
first = cf.compute((box, pts), v).correlation
copy = np.array(first)
second = np.array(cf.compute((box, pts * .5), v).correlation)
assert np.array_equal(first, copy) and not np.array_equal(second, copy)
""", checks=["X04"])

bug("d03-default-args", "D03", [("freud/density.py", "return dict(mode=\"ball\", r_max=self.r_max + 0.5 * self.diameter)", "return dict(mode=\"ball\", r_max=self.r_max)")],
"LocalDensity with a nonzero diameter and default neighbors, with particles just outside r_max",
"particles that overlap the sphere from outside are not counted",
"""
import numpy as np, freud
box = freud.box.Box.cube(30)
ld = freud.density.LocalDensity(3, 1.0).compute((box, [[0, 0, 0], [3.25, 0, 0]]))
print(ld.num_neighbors)
assert np.allclose(ld.num_neighbors, [0.25, 0.25], atol=1e-5)
""")

bug("e02-static-first", "E02", [("freud/environment/AngularSeparation.cc",
"    const quat<float> qconst = equiv_qs[0];\n    // here we undo a rotation represented by one of the equivalent orientations\n    const quat<float> qtemp",
"    static const quat<float> qconst = equiv_qs[0];\n    // here we undo a rotation represented by one of the equivalent orientations\n    const quat<float> qtemp")],
"two computations with lists of equivalent orientations that start with different quaternions",
"the second computation undoes the first one's equivalent rotation",
"""
import numpy as np, freud
q = lambda ax, a: np.concatenate([[np.cos(a / 2)], np.sin(a / 2) * np.array(ax)])
A = freud.environment.AngularSeparationGlobal()
e1 = [q([0, 0, 1], t) for t in np.arange(4) * np.pi / 2]
g = [q([1, 0, 0], 0.3)]; o = [q([0, 1, 0], 0.4)]
A.compute(g, o, e1)
r1 = np.array(A.compute(g, o, [e1[1]]).angles)
ref = 2 * np.arccos(abs(np.cos(.15) * np.cos(.2)))
print(r1, ref)
assert abs(r1[0, 0] - ref) < 1e-3
""")

bug("e02-proj-order", "E02", [("freud/environment/LocalBondProjection.cc",
"        const quat<float> qtest = conj(qconst) * qe;", "        const quat<float> qtest = qe * conj(qconst);")],
"equivalent orientations that do not start with the identity, nor form a group around it",
"the reference vector is rotated in the wrong order, so the maximum is taken over the wrong images",
"""
import numpy as np, freud, rowan
rng = np.random.default_rng(0)
box = freud.box.Box.cube(20)
pts = np.array([[0, 0, 0], [1, .3, .2]])
eq = rowan.random.rand(3); o = rowan.random.rand(2)
p = np.array([[1, 0, 0.]])
L = freud.environment.LocalBondProjection().compute((box, pts), o, p, equiv_orientations=eq, neighbors=dict(mode="ball", r_max=3))
for b, (i, j) in enumerate(L.nlist[:]):
    loc = rowan.rotate(rowan.conjugate(o[j]), L.nlist.vectors[b])
    cand = [p[0]] + [rowan.rotate(rowan.multiply(rowan.conjugate(eq[0]), e), p[0]) for e in eq]
    ref = max(c @ loc for c in cand)
    assert abs(ref - L.projections[b, 0]) < 1e-4, (ref, L.projections[b, 0])
""")

bug("i01-contact", "I01", [("freud/interface.py",
"        self._point_ids = np.unique(nlist.point_indices)\n        self._query_point_ids = np.unique(nlist.query_point_indices)\n",
"        # points in the same place have no direction across the interface\n        bonds = nlist[nlist.distances > 0]\n        self._point_ids = np.unique(bonds[:, 0 + 1])\n        self._query_point_ids = np.unique(bonds[:, 0])\n")],
"points of the two sets in exactly the same place",
"coincident points are not part of the interface",
"""
import numpy as np, freud
box = freud.box.Box.cube(10)
it = freud.interface.Interface().compute((box, [[0, 0, 0], [3, 0, 0]]), [[3, 0, 0], [-4, 0, 0]], neighbors=dict(mode="ball", r_max=1))
assert list(it.point_ids) == [1] and list(it.query_point_ids) == [0]
""")

bug("m01-int8", "M01", [("freud/msd.py", "images, shape=positions.shape, dtype=np.int32", "images, shape=positions.shape, dtype=np.int8")],
"a trajectory that crosses the box more than 127 times",
"image numbers overflow",
"""
import numpy as np, freud
N = 200
pos = np.zeros((N, 1, 3)); img = np.zeros((N, 1, 3), dtype=np.int32); img[:, 0, 0] = np.arange(N)
m = freud.msd.MSD(freud.box.Box.cube(2), mode="direct").compute(pos, img).msd
assert np.allclose(m, (2.0 * np.arange(N))**2)
""")

bug("m01-chunk-mean", "M01", [("freud/msd.py", "return np.concatenate(self._particle_msd, axis=1).mean(axis=-1)", "return np.mean([chunk.mean(axis=-1) for chunk in self._particle_msd], axis=0)")],
"accumulating chunks with different numbers of particles",
"particles in smaller chunks weigh more",
"""
import numpy as np, freud
rng = np.random.default_rng(0)
a, b = rng.random((5, 3, 3)), rng.random((5, 7, 3)) * 3
m = freud.msd.MSD(mode="direct"); m.compute(a); m.compute(b, reset=False)
assert np.allclose(m.msd, freud.msd.MSD(mode="direct").compute(np.concatenate([a, b], axis=1)).msd, rtol=1e-4)
""")

bug("p01-equiv-inverse", "P01", [("freud/pmft/PMFTXYZ.cc", "v = rotate(equiv_orientations[k], v);", "v = rotate(conj(equiv_orientations[k]), v);")],
"equivalent orientations that are not closed under inversion",
"bonds are rotated by the inverse of the equivalent orientations",
"""
import numpy as np, freud
box = freud.box.Box.cube(20)
s = np.sqrt(.5)
p = freud.pmft.PMFTXYZ(2, 2, 2, 4).compute((box, [[1.5, .1, .1]]), np.array([[1., 0, 0, 0]]), query_points=[[0, 0, 0]], equiv_orientations=[[s, 0, 0, s]], neighbors=dict(mode="ball", r_max=2))
print(np.argwhere(p.bin_counts))
assert np.argwhere(p.bin_counts).tolist() == [[1, 3, 2]]
""")

bug("x01-num-equiv", "X01", [("freud/pmft/PMFTXYZ.cc",
"    PMFT::reset();\n    m_num_equiv_orientations = 0xffffffff;\n", "    PMFT::reset();\n")],
"computing with a different number of equivalent orientations after a reset",
"the number of equivalent orientations of the frames before the reset still counts",
"""
import numpy as np, freud
box = freud.box.Box.cube(20)
p = freud.pmft.PMFTXYZ(2, 2, 2, 4)
q = np.array([[1., 0, 0, 0]])
sys = (box, [[1.5, .1, .1]])
p.compute(sys, q, query_points=[[0, 0, 0]], equiv_orientations=[[1., 0, 0, 0], [0, 0, 0, 1.]])
p.compute(sys, q, query_points=[[0, 0, 0]])
assert p.bin_counts.sum() == 1
""")

bug("s01-min-valid-k", "S01", [("freud/diffraction/StaticStructureFactorDebye.cc",
"    m_min_valid_k = std::min(m_min_valid_k, 2 * freud::constants::TWO_PI / min_box_length);",
"    m_min_valid_k = 2 * freud::constants::TWO_PI / min_box_length;")],
"accumulating frames with boxes of different size",
"min_valid_k is that of the last frame only",
"""
import numpy as np, freud
d = freud.diffraction.StaticStructureFactorDebye(10, 10)
pts = np.random.default_rng(0).random((20, 3))
d.compute((freud.box.Box.cube(20), pts), reset=False)
d.compute((freud.box.Box.cube(10), pts), reset=False)
assert abs(d.min_valid_k - 4 * np.pi / 20) < 1e-5, d.min_valid_k
""")

bug("s02-kvec-cache", "S02", [("freud/diffraction.py",
"        self._k_values_cached = False\n        self._k_vectors_cached = False\n",
"        self._k_values_cached = False\n        if not self._called_compute:\n            self._k_vectors_cached = False\n")],
"reading k_vectors between two computations with different views, zooms or boxes",
"k_vectors are those of the first computation",
"""
import numpy as np, freud
dp = freud.diffraction.DiffractionPattern(grid_size=16)
pts = np.random.default_rng(0).random((30, 3))
a = np.array(dp.compute((freud.box.Box.cube(4), pts), zoom=2).k_vectors)
b = np.array(dp.compute((freud.box.Box.cube(4), pts), zoom=4).k_vectors)
assert np.allclose(a, 2 * b)
""")

bug("x03-all-pairs-ii", "X03", [("freud/locality/NeighborList.cc",
"    const unsigned int num_ii = (exclude_ii ? std::min(num_points, num_query_points) : 0);",
"    const unsigned int num_ii = (exclude_ii ? num_query_points : 0);")],
"NeighborList.all_pairs with more query points than points and exclude_ii",
"too few bonds are allocated, and the bonds are written past the end of the arrays",
"""
import numpy as np, freud
box = freud.box.Box.cube(10)
nl = freud.locality.NeighborList.all_pairs((box, np.zeros((3, 3))), np.ones((8, 3)), exclude_ii=True)
assert len(nl) == 3 * 8 - 3, len(nl)
""", checks=["X03", "N03"])

bug("x04-raw-alias", "X04", [("freud/locality.py",
"""        self._points = freud.util._convert_array(points, shape=(None, 3)).copy()
        self._cpp_obj = freud._locality.AABBQuery(b._cpp_obj, self._points)""",
"""        self._points = freud.util._convert_array(points, shape=(None, 3))
        self._cpp_obj = freud._locality.AABBQuery(b._cpp_obj, self._points)""")],
"changing the array of points after an AABBQuery was built from it",
"the query object changes with the user's array: its tree no longer fits its points",
"""
import numpy as np, freud
box = freud.box.Box.cube(10)
pts = np.random.default_rng(0).random((50, 3)).astype(np.float32)
q = freud.locality.AABBQuery(box, pts)
args = dict(mode="ball", r_max=.5, exclude_ii=True)
qp = pts.copy()
a = np.array(q.query(qp, args).toNeighborList()[:])
pts += 3
b = np.array(q.query(qp, args).toNeighborList()[:])
assert np.array_equal(a, b) and len(a)
""")

bug("x06-validate", "X06", [("freud/locality/NeighborList.cc",
"    if (num_points != m_num_points)\n    {\n        throw std::runtime_error(\"NeighborList found inconsistent array sizes.\");",
"    if (num_points < m_num_points)\n    {\n        throw std::runtime_error(\"NeighborList found inconsistent array sizes.\");")],
"a neighbor list made for fewer points than the system has",
"a neighbor list of another system is accepted",
"""
import numpy as np, freud
box = freud.box.Box.cube(10)
nl = freud.locality.NeighborList.from_arrays(4, 3, [0], [1], [[1, 0, 0]])
try:
    freud.density.RDF(5, 3).compute((box, np.zeros((4, 3))), neighbors=nl)
except RuntimeError: pass
else: raise SystemExit("accepted")
""")

bug("b01-partial-wrap", "B01", [("freud/box/Box.h",
"        if (!m_periodic.x && !m_periodic.y && !m_periodic.z)\n", "        if (!m_periodic.x && !m_periodic.y)\n")],
"a box that is periodic in z only",
"vectors are not wrapped in z",
"""
import numpy as np, freud
box = freud.box.Box.cube(10); box.periodic = [False, False, True]
w = box.wrap([7, -8, 9])
assert np.allclose(w, [7, -8, -1], atol=1e-4), w
""")

bug("b02-eq", "B02", [("freud/box.py",
"            and self.periodic_y == other.periodic_y\n            and self.periodic_z == other.periodic_z\n",
"            and self.periodic_y == other.periodic_y\n")],
"two boxes that differ only in their z periodicity",
"different boxes compare equal",
"""
import freud
a = freud.box.Box.cube(10); b = freud.box.Box.cube(10); b.periodic_z = False
assert a != b
""")

bug("e01-oocd", "E01", [("freud/environment/BondOrder.cc",
"                              z = rotate(q, z);\n", ""),
 ("freud/environment/BondOrder.cc",
"                              v = rotate(conj(ref_q), z);", "                              v = rotate(q * conj(ref_q), z);")],
"BondOrder in oocd mode with pairs of orientations that do not commute",
"the two rotations are applied in the wrong order",
"""
import numpy as np, freud, rowan
np.random.seed(0)
box = freud.box.Box.cube(20)
bad = 0
for _ in range(20):
    o = rowan.random.rand(1); q = rowan.random.rand(1)
    b = freud.environment.BondOrder((12, 6), "oocd").compute((box, [[1, .2, .3]]), o, [[0, 0, 0]], q, neighbors=dict(mode="ball", r_max=3))
    v = rowan.rotate(rowan.conjugate(o[0]), rowan.rotate(q[0], [0, 0, 1]))
    t = np.arctan2(v[1], v[0]) % (2 * np.pi); p = np.arccos(v[2] / np.linalg.norm(v))
    bad += b.bin_counts[int(t / (2 * np.pi) * 12), int(p / np.pi * 6)] != 1
print(bad)
assert bad <= 1
""")

bug("x02-rad-shared", "X02", [("freud/locality/FilterRAD.cc",
"            bool good_neighbor = true;\n", "            good_neighbor = true;\n"),
 ("freud/locality/FilterRAD.cc",
"    BondVector filtered_bonds;\n\n    // parallelize over query_point_index\n", "    BondVector filtered_bonds;\n    bool good_neighbor = true;\n\n    // parallelize over query_point_index\n")],
"two threads filtering different query points at the same time",
"the flag whether a neighbor is blocked is shared between threads, so bonds appear and disappear at random",
"""
import numpy as np, freud
rng = np.random.default_rng(0)
box = freud.box.Box.cube(12)
pts = rng.random((500, 3)) * 12 - 6
def run():
    f = freud.locality.FilterRAD(allow_incomplete_shell=True, terminate_after_blocked=False)
    return np.array(f.compute((box, pts), neighbors=dict(mode="ball", r_max=5)).filtered_nlist[:])
freud.parallel.set_num_threads(1); ref = run()
freud.parallel.set_num_threads(8)
for _ in range(12):
    assert np.array_equal(run(), ref)
""")
