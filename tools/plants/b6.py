BUGS = []
def bug(id, property, edits, needs, breaks, demo, checks=None):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, checks=checks or [property]))

bug("n06-frac-images", "N06", [("freud/locality/PeriodicBuffer.cc", "            = freud::box::Box(static_cast<float>(1 + images.x) * L.x, static_cast<float>(1 + images.y) * L.y,\n                              static_cast<float>(1 + images.z) * L.z, xy, xz, yz, is2D);", "            = freud::box::Box((1 + buff.x) * L.x, (1 + buff.y) * L.y, (1 + buff.z) * L.z, xy, xz, yz, is2D);")],
"a fractional number of images", "the buffer box does not hold the whole images the points are replicated for",
"""
import numpy as np, freud
b = freud.box.Box.cube(4)
pb = freud.locality.PeriodicBuffer().compute((b, np.array([[1, .5, -1.2]])), buffer=1.5, images=True, include_input_points=True)
assert np.allclose(pb.buffer_box.L, 12), pb.buffer_box
""")

bug("e02-global-order", "E02", [("freud/environment/AngularSeparation.cc", "                    = computeMinSeparationAngle(q, global_q, equiv_orientations, n_equiv_orientations);", "                    = computeMinSeparationAngle(global_q, q, equiv_orientations, n_equiv_orientations);")],
"equivalent orientations that are not a group (or whose first is not the identity)", "the equivalents are applied to the wrong orientation",
"""
import numpy as np, freud
def rot(ax, a):
    ax = np.asarray(ax, float) / np.linalg.norm(ax); return np.r_[np.cos(a / 2), np.sin(a / 2) * ax]
def mul(a, b):
    return np.r_[a[0] * b[0] - a[1:] @ b[1:], a[0] * b[1:] + b[0] * a[1:] + np.cross(a[1:], b[1:])]
g, q = rot([1, 2, 3], 1.1), rot([0, 1, -1], 2.0)
e = np.array([rot([0, 0, 1], 0), rot([0, 0, 1], .9)])
def ang(ref, t):
    c = np.array([1, -1, -1, -1]); return 2 * np.arccos(np.clip(mul(t, ref * c)[0], -1, 1))
# the angle is between the point's orientation and the equivalents of the global one
ref = min([ang(q, g)] + [ang(q, mul(mul(g, e[0] * [1, -1, -1, -1]), x)) for x in e])
a = freud.environment.AngularSeparationGlobal().compute(g[None], q[None], e).angles[0, 0]
assert abs(a - ref) < 1e-3, (a, ref)
""")

bug("o01-neg-weight", "O01", [("freud/order/HexaticTranslational.cc", "                (*m_psi_array)[i] += weight * func(delta);", "                if (weight < 0)\n                {\n                    continue;\n                }\n                (*m_psi_array)[i] += weight * func(delta);")],
"weighted order with a negative bond weight", "bonds of negative weight are left out",
"""
import numpy as np, freud
b = freud.box.Box.square(10)
p = np.array([[0, 0, 0], [1, 0, 0], [0, 1.2, 0], [-.7, -.7, 0]])
nl = freud.locality.NeighborList.from_arrays(4, 4, [0, 0, 0], [1, 2, 3], p[1:], [1., -.5, 2.])
psi = freud.order.Hexatic(6, weighted=True).compute((b, p), nl).particle_order[0]
th = np.arctan2(p[1:, 1], p[1:, 0]); w = np.array([1., -.5, 2.])
ref = (w * np.exp(6j * th)).sum() / w.sum()
assert abs(psi - ref) < 1e-4, (psi, ref)
""")

bug("n02-aniso-stop", "N02", [("freud/locality/AABBQuery.cc", "        max_plane_distance = std::max(max_plane_distance, plane_distance.z);", "        max_plane_distance = std::max(max_plane_distance, min_plane_distance);")],
"a box longest along z with fewer neighbors than asked within the shortest side", "farther neighbors are never found",
"""
import numpy as np, freud
b = freud.box.Box(2, 2, 20)
p = np.array([[0, 0, z] for z in (-8, -4, 0, 4, 8)], float)
nl = freud.locality.AABBQuery(b, p).query(p, dict(num_neighbors=4, exclude_ii=True, r_guess=.5)).toNeighborList()
assert (nl.neighbor_counts == 4).all(), nl.neighbor_counts
""")

bug("x02-numthreads-none", "X02", [("freud/parallel.py", "        set_num_threads(self.restore_N)", "        if self.N is not None:\n            set_num_threads(self.restore_N)")],
"NumThreads() without a number, inside a limited number of threads", "the limit is gone after the context",
"""
import freud
freud.parallel.set_num_threads(2)
with freud.parallel.NumThreads():
    pass
assert freud.parallel.get_num_threads() == 2
""", ["X02", "V01"])

bug("n06-shift", "N06", [("freud/data.py", "        shift_vec = (np.array([nx, ny, nz]) + 1) % 2", "        shift_vec = (np.array([nx, ny, nz if nz > 1 else ny]) + 1) % 2")],
"a single layer in z of a 3D cell with an even number along y", "the layer is shifted by half the cell along z",
"""
import numpy as np, freud
b, p = freud.data.UnitCell.sc().generate_system((2, 2, 1))
u = freud.data.UnitCell.sc(); p0 = u.box.make_absolute(u.basis_positions)
assert np.allclose(np.sort(np.abs(p[:, 2])), abs(p0[0, 2]), atol=1e-5), p
""")

bug("d01-frames-np", "D01", [("freud/locality/BondHistogramCompute.h", "        m_n_points = neighbor_query->getNPoints();\n        m_n_query_points = n_query_points;", "        m_n_points = std::max(m_n_points, neighbor_query->getNPoints());\n        m_n_query_points = n_query_points;")],
"a smaller system computed after a larger one with the same object", "the normalisation uses the number of points of the larger system",
"""
import numpy as np, freud
r = np.random.default_rng(0); b = freud.box.Box.cube(6)
big, small = r.uniform(-3, 3, (60, 3)), r.uniform(-3, 3, (20, 3))
x = freud.density.RDF(10, 2.5); x.compute((b, big)); x.compute((b, small))
y = freud.density.RDF(10, 2.5); y.compute((b, small))
assert np.allclose(x.rdf, y.rdf), (x.rdf, y.rdf)
""", ["D01", "X01"])

bug("d01-bin-count", "D01", [("freud/density/RDF.cc", "    for (unsigned int i = 1; i < getAxisSizes()[0]; i++)\n    {\n        (*m_N_r)[i] = (*m_N_r)[i - 1] + float(m_histogram[i]) * prefactor;", "    for (unsigned int i = 1; i < std::min<size_t>(getAxisSizes()[0], 512); i++)\n    {\n        (*m_N_r)[i] = (*m_N_r)[i - 1] + float(m_histogram[i]) * prefactor;")],
"more than 512 bins", "the cumulative numbers stop at bin 512",
"""
import numpy as np, freud
r = np.random.default_rng(0); b = freud.box.Box.cube(6)
p = r.uniform(-3, 3, (60, 3))
x = freud.density.RDF(700, 2.5); x.compute((b, p))
assert np.allclose(np.cumsum(x.bin_counts) / 60, x.n_r, atol=1e-3)
""")

bug("c01-large-count", "C01", [("freud/cluster/Cluster.cc", "        if (counts[i1] != counts[i2])", "        if (static_cast<unsigned short>(counts[i1]) != static_cast<unsigned short>(counts[i2]))"), ("freud/cluster/Cluster.cc", "            return counts[i1] > counts[i2];", "            return static_cast<unsigned short>(counts[i1]) > static_cast<unsigned short>(counts[i2]);")],
"a cluster of more than 65535 points", "the largest cluster does not come first",
"""
import numpy as np, freud
n = 66000; b = freud.box.Box.cube(10 * n)
p = np.zeros((n + 3000, 3), np.float32); p[:, 0] = np.arange(n + 3000)
i = np.r_[np.arange(n, n + 2999), np.arange(n - 1)]
nl = freud.locality.NeighborList.from_arrays(n + 3000, n + 3000, np.sort(i), np.sort(i) + 1, np.ones((len(i), 3)) * [1, 0, 0])
c = freud.cluster.Cluster().compute((b, p), neighbors=nl)
assert c.num_clusters == 2 and c.cluster_idx[0] == 0 and c.cluster_idx[-1] == 1, (c.cluster_idx[0], c.cluster_idx[-1])
""")

bug("b02-fromlist", "B02", [("freud/box.py", "            dimensions = 2 if Lz == 0 else 3\n        is2D = dimensions == 2\n        new_box = cls(", "            dimensions = 2 if Lz == 0 and not (xz or yz) else 3\n        is2D = dimensions == 2\n        new_box = cls(")],
"a list with Lz = 0 and z tilts", "the box is taken for 3D (and rejected)",
"""
import freud
b = freud.box.Box.from_box([3, 4, 0, .1, .2, 0])
assert b.is2D, b
""")

