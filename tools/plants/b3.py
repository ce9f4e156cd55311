BUGS = []
def bug(id, property, edits, needs, breaks, demo, checks=None):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, checks=checks or [property]))

bug("c01-tie-sort", "C01", [("freud/cluster/Cluster.cc", "        return min_ids[i1] < min_ids[i2];\n", "        return false;\n")],
"more than 16 clusters, several of equal size (std::sort is only stable by accident for fewer)",
"clusters of equal size are not numbered by their first point",
"""
import numpy as np, freud
box = freud.box.Box.cube(100)
n = 60
nl = freud.locality.NeighborList.from_arrays(n, n, [], [], np.zeros((0, 3)))
c = freud.cluster.Cluster().compute((box, np.zeros((n, 3))), neighbors=nl)
assert (c.cluster_idx == np.arange(n)).all(), c.cluster_idx
""")

bug("c02-lone-point", "C02", [("freud/cluster/ClusterProperties.cc",
"""        (*m_cluster_centers)[c] = nq->getBox().centerOfMass(cluster_points[c].data(), (*m_cluster_sizes)[c]);
""", """        if ((*m_cluster_sizes)[c] == 1)
        {
            // a single point is its own center
            (*m_cluster_centers)[c] = cluster_points[c][0];
            (*m_cluster_centers_of_mass)[c] = cluster_points[c][0];
            continue;
        }
        (*m_cluster_centers)[c] = nq->getBox().centerOfMass(cluster_points[c].data(), (*m_cluster_sizes)[c]);
""")],
"a cluster of one point that lies outside the box",
"its center lies outside the box",
"""
import numpy as np, freud
box = freud.box.Box.cube(10)
p = freud.cluster.ClusterProperties().compute((box, [[7, 0, 0], [1, 1, 1]]), [0, 1])
assert np.allclose(p.centers[0], [-3, 0, 0], atol=1e-4), p.centers
""")

bug("d01-nr-points", "D01", [("freud/density/RDF.cc", "    prefactor = float(1.0) / (nqp * static_cast<float>(m_frame_counter));", "    prefactor = float(1.0) / (np * static_cast<float>(m_frame_counter));")],
"different numbers of points and query points", "n_r is the number of neighbors per point rather than per query point",
"""
import numpy as np, freud
rng = np.random.default_rng(0)
box = freud.box.Box.cube(10)
rdf = freud.density.RDF(10, 3).compute((box, rng.random((50, 3)) * 10 - 5), query_points=rng.random((20, 3)) * 10 - 5)
assert np.allclose(rdf.n_r, np.cumsum(rdf.bin_counts) / 20, rtol=1e-4)
""")

bug("d02-local-reset", "D02", [("freud/density/CorrelationFunction.cc", "    m_local_correlation_function.reset();\n", "")],
"a second computation with the same object", "values of earlier computations stay in the averages",
"""
import numpy as np, freud
rng = np.random.default_rng(0)
box = freud.box.Box.cube(10); p = rng.random((50, 3)) * 10 - 5
cf = freud.density.CorrelationFunction(5, 3)
cf.compute((box, p), np.ones(50)); cf.correlation
cf.compute((box, p), np.ones(50) * 2)
g = cf.correlation
assert np.allclose(g[cf.bin_counts > 0], 4), g
""", ["D02", "X01"])

bug("d03-static", "D03", [("freud/density/LocalDensity.cc", "    const float volume = static_cast<float>(4.0 / 3.0 * M_PI)", "    static const float volume = static_cast<float>(4.0 / 3.0 * M_PI)")],
"two objects with different r_max in one process", "the density of the second is divided by the volume of the first",
"""
import numpy as np, freud
rng = np.random.default_rng(0)
box = freud.box.Box.cube(10); p = rng.random((50, 3)) * 10 - 5
for r in (3.0, 2.0):
    ld = freud.density.LocalDensity(r, 1).compute((box, p))
    assert np.allclose(ld.density, ld.num_neighbors / (4 / 3 * np.pi * r ** 3), rtol=1e-4), r
""")

bug("d04-cut-y", "D04", [("freud/density/GaussianDensity.cc", "    const int bin_cut_y = int(m_r_max / grid_size_y) + 1;", "    const int bin_cut_y = int(m_r_max / std::max(grid_size_x, grid_size_y)) + 1;")],
"voxels that are shorter in y than in x", "voxels within r_max in y are skipped",
"""
import numpy as np, freud
box = freud.box.Box(20, 20, 20)
g = freud.density.GaussianDensity((8, 40, 20), 5, 2.0).compute((box, [[0.1, 0.2, 0.3]]))
d = g.density
c = [(np.arange(w) + 0.5) * 20 / w - 10 for w in (8, 40, 20)]
r = np.sqrt((c[0] - .1)[:, None, None] ** 2 + (c[1] - .2)[None, :, None] ** 2 + (c[2] - .3)[None, None] ** 2)
assert ((d > 0) == (r < 5)).all()
""")

bug("e01-obcd-order", "E01", [("freud/environment/BondOrder.cc",
"""                              v = rotate(conj(ref_q), v);
                              v = rotate(q, v);
""", """                              v = rotate(conj(ref_q) * q, v);
""")],
"mode obcd with orientations that do not commute", "the bond is rotated in the wrong order",
"""
import numpy as np, freud, rowan
rng = np.random.default_rng(0)
box = freud.box.Box.cube(20)
p = np.array([[0, 0, 0], [1, 0.3, 0.2]], dtype=np.float32)
q = rowan.random.rand(2)
nl = freud.locality.NeighborList.from_arrays(2, 2, [0], [1], [p[1] - p[0]])
n1, n2 = 40, 20
bo = freud.environment.BondOrder((n1, n2), mode='obcd').compute((box, p), orientations=q, neighbors=nl)
v = rowan.rotate(q[0], rowan.rotate(rowan.conjugate(q[1]), p[1] - p[0]))
t = np.arctan2(v[1], v[0]) % (2 * np.pi); f = np.arccos(v[2] / np.linalg.norm(v))
assert bo.bin_counts[int(t / (2 * np.pi) * n1), int(f / np.pi * n2)] == 1
""")

bug("e02-first-equiv", "E02", [("freud/environment/AngularSeparation.cc", "        const quat<float> qtest = qtemp * qe;\n", "        const quat<float> qtest = q * qe;\n")],
"equivalent orientations whose first element is not the identity", "the orientations are compared with the wrong symmetry copies",
"""
import numpy as np, freud, rowan
rng = np.random.default_rng(0)
Q = rowan.random.rand(1)[0]
eq = np.array([rowan.from_axis_angle([0, 0, 1], a) for a in (np.pi / 2, np.pi, 3 * np.pi / 2, 0)])
q0 = eq[0]
a, b = rowan.random.rand(2)
s = freud.environment.AngularSeparationGlobal().compute([a], [b], eq).angles[0, 0]
def ang(x, y):
    return 2 * np.arccos(np.clip(rowan.multiply(x, rowan.conjugate(y))[0], -1, 1))
# the set is a group: the reference does not depend on the first element
want = min([ang(a, b)] + [ang(rowan.multiply(rowan.multiply(a, rowan.conjugate(q0)), e), b) for e in eq])
eq2 = np.array([eq[0], eq[1]])
s2 = freud.environment.AngularSeparationGlobal().compute([a], [b], eq2).angles[0, 0]
want2 = min([ang(a, b)] + [ang(rowan.multiply(rowan.multiply(a, rowan.conjugate(q0)), e), b) for e in eq2])
assert abs(s - want) < 1e-3 and abs(s2 - want2) < 1e-3, (s, want, s2, want2)
""")

bug("e02-segment-start", "E02", [("freud/environment/AngularSeparation.cc", "        size_t bond(m_nlist->find_first_index(begin));\n", "        size_t bond((*m_nlist->getSegments())(begin));\n")],
"several threads, and a chunk of query points that begins with one without neighbors", "the angles of the whole chunk stay zero",
"""
import numpy as np, freud, rowan
rng = np.random.default_rng(0)
box = freud.box.Box.cube(20); n = 64
p = rng.random((n, 3)) * 10; q = rowan.random.rand(n)
i = np.repeat(np.arange(1, n, 2), 2); j = (i + np.tile([1, 2], len(i) // 2)) % n
nl = freud.locality.NeighborList.from_arrays(n, n, i, j, np.ones((len(i), 3)))
for _ in range(50):
    a = freud.environment.AngularSeparationNeighbor().compute((box, p), q, neighbors=nl).angles
    assert (a > 0).all()
""", ["E02", "X02"])

bug("o01-psi-reuse", "O01", [("freud/order/HexaticTranslational.cc",
"    m_psi_array = std::make_shared<util::ManagedArray<std::complex<float>>>(std::vector<size_t> {Np});\n",
"""    if (m_psi_array == nullptr || m_psi_array->size() != Np)
    {
        m_psi_array = std::make_shared<util::ManagedArray<std::complex<float>>>(std::vector<size_t> {Np});
    }
""")],
"a second computation of the same number of points with the same object", "the sums start from the earlier result, and arrays obtained earlier change",
"""
import numpy as np, freud
rng = np.random.default_rng(0)
box = freud.box.Box.square(10); p = rng.random((50, 3)) * 10 - 5; p[:, 2] = 0
h = freud.order.Hexatic(); h.compute((box, p)); a = h.particle_order.copy()
h.compute((box, p)); assert np.allclose(a, h.particle_order, atol=1e-5)
""", ["O01", "X01", "X04"])

bug("o02-best", "O02", [("freud/order/Cubatic.cc", "            max_cubatic_order_parameter = p_cubatic_order_parameter[i];\n        }\n    }\n", "        }\n    }\n")],
"three or more replicates, of which the last one that beats the first is not the best",
"some replicate is reported instead of the best one",
"""
import numpy as np, freud, rowan
q = rowan.random.rand(20)
for seed in range(15):
    best = -9
    for n in range(1, 9):
        c = freud.order.Cubatic(5.0, 0.001, 0.5, n, seed).compute(q)
        assert c.order >= best - 1e-6, (seed, n)
        best = max(best, c.order)
""")

bug("p01-xyt-angle", "P01", [("freud/pmft/PMFTXYT.cc", "                          const float d_theta = std::atan2(-delta.y, -delta.x);\n", "                          const float d_theta = std::atan2(delta.y, delta.x);\n")],
"any bond", "the angle is measured from the opposite direction",
"""
import numpy as np, freud
box = freud.box.Box.square(20)
nl = freud.locality.NeighborList.from_arrays(2, 2, [0], [1], [[1.1, 0.3, 0]])
p = freud.pmft.PMFTXYT(3, 3, (6, 6, 8)).compute((box, [[0, 0, 0], [1.1, 0.3, 0]]), [0.2, 0.7], neighbors=nl)
t = (0.7 - np.arctan2(-0.3, -1.1)) % (2 * np.pi)
assert np.argwhere(p.bin_counts)[0][2] == int(t / (2 * np.pi) * 8)
""")

bug("s01-2d-min", "S01", [("freud/diffraction/StaticStructureFactorDebye.cc",
"""        = box.is2D() ? std::min(box_L.x, box_L.y) : std::min(box_L.x, std::min(box_L.y, box_L.z));
""", """        = box.is2D() ? box_L.x : std::min(box_L.x, std::min(box_L.y, box_L.z));
""")],
"a 2D box with Ly < Lx", "min_valid_k is too small",
"""
import numpy as np, freud
box = freud.box.Box(20, 5)
s = freud.diffraction.StaticStructureFactorDebye(10, 5).compute((box, np.zeros((3, 3))))
assert abs(s.min_valid_k - 4 * np.pi / 5) < 1e-4, s.min_valid_k
""")

bug("s02-late-norm", "S02", [("freud/diffraction.py",
"""        diffraction_frame = (
            self._transform(diffraction_frame, system.box, inv_shear, zoom)
            / self._N_points
        )
""", """        diffraction_frame = self._transform(
            diffraction_frame, system.box, inv_shear, zoom
        )
"""), ("freud/diffraction.py", "        return np.asarray(self._diffraction) / self._frame_counter\n", "        return np.asarray(self._diffraction) / (self._frame_counter * self._N_points)\n")],
"accumulated frames of different numbers of points", "all frames are normalised by the number of points of the last",
"""
import numpy as np, freud
rng = np.random.default_rng(0)
box = freud.box.Box.cube(10)
a, b = rng.random((20, 3)) * 10 - 5, rng.random((60, 3)) * 10 - 5
D = lambda: freud.diffraction.DiffractionPattern(grid_size=32)
x = D().compute((box, a)).diffraction; y = D().compute((box, b)).diffraction
d = D(); d.compute((box, a), reset=False); d.compute((box, b), reset=False)
assert np.allclose(d.diffraction, (x + y) / 2)
""")

bug("s02-odd-shift", "S02", [("freud/diffraction.py", "            roll_shift -= 0.5 / zoom\n", "            roll_shift -= 0.5\n")],
"an odd output size and a zoom other than 1", "the pattern is shifted by a fraction of a pixel",
"""
import numpy as np, freud
rng = np.random.default_rng(0)
box = freud.box.Box.cube(10)
a = rng.random((50, 3)) * 10 - 5
d = freud.diffraction.DiffractionPattern(grid_size=64, output_size=65).compute((box, a), zoom=2.5).diffraction
assert abs(d[32, 32] - 50) < 1e-6, d[32, 32]
""")

bug("x04-msd-copy", "X04", [("freud/msd.py", "            unwrapped_positions = positions.copy()\n", "            unwrapped_positions = positions\n")],
"float32 positions with images and a box", "the caller's array is overwritten",
"""
import numpy as np, freud
rng = np.random.default_rng(0)
p = rng.random((3, 4, 3)).astype(np.float32); o = p.copy()
freud.msd.MSD(box=freud.box.Box.cube(2)).compute(p, images=np.ones((3, 4, 3), np.int32))
assert (p == o).all()
""")

bug("n03-filter-r-closed", "N03", [("freud/locality/NeighborList.cc", "(*m_distances)[i] >= r_min && (*m_distances)[i] < r_max", "(*m_distances)[i] >= r_min && (*m_distances)[i] <= r_max")],
"a bond of length exactly r_max", "filter_r keeps it",
"""
import freud
nl = freud.locality.NeighborList.from_arrays(1, 2, [0, 0], [0, 1], [[1, 0, 0], [2, 0, 0]])
nl.filter_r(2.0)
assert len(nl) == 1
""")

bug("n05-sann-tie", "N05", [("freud/locality/FilterSANN.cc", "(sum / (float(m) - 2.0)) > sorted_dist(first_idx + m))", "(sum / (float(m) - 2.0)) >= sorted_dist(first_idx + m))")],
"a shell radius exactly equal to the next distance", "one neighbor too many",
"""
import numpy as np, freud
box = freud.box.Box.cube(100)
v = [[1, 0, 0], [0, 1, 0], [0, 0, 2], [0, 0, 4], [0, 0, 9]]
nl = freud.locality.NeighborList.from_arrays(1, 5, [0] * 5, np.arange(5), v)
f = freud.locality.FilterSANN(allow_incomplete_shell=True)
f.compute((box, np.array(v, float)), neighbors=nl, query_points=[[0, 0, 0]])
assert len(f.filtered_nlist) == 3, len(f.filtered_nlist)
""")

bug("n06-noise-wrap", "N06", [("freud/data.py",
"""            positions += rs.multivariate_normal(mean, cov, size=positions.shape[:-1])

        positions = box.wrap(positions)
        return box, positions
""", """            positions += rs.multivariate_normal(mean, cov, size=positions.shape[:-1])

        return box, positions
""")],
"noise that moves points out of the box", "positions outside the box are returned",
"""
import numpy as np, freud
box, p = freud.data.UnitCell.sc().generate_system(4, sigma_noise=0.5, seed=1)
assert np.allclose(box.wrap(p), p, atol=1e-4)
""")

bug("n02-min-plane", "N02", [("freud/locality/AABBQuery.cc", "(r_search >= max_plane_distance)", "(r_search >= min_plane_distance)")],
"a long box whose neighbors lie further away than the short side", "fewer neighbors than there are",
"""
import numpy as np, freud
box = freud.box.Box(4, 4, 60)
pts = np.array([[0, 0, z] for z in np.linspace(-24, 24, 7)])
nl = freud.locality.AABBQuery(box, pts).query(pts, dict(mode='nearest', num_neighbors=3, exclude_ii=True)).toNeighborList()
assert (nl.neighbor_counts == 3).all(), nl.neighbor_counts
""")

bug("n02-linkcell-stop", "N02", [("freud/locality/LinkCell.cc", "static_cast<float>(m_neigh_cell_iter.getRange() - 1) * m_linkcell->getCellWidth()", "static_cast<float>(m_neigh_cell_iter.getRange()) * m_linkcell->getCellWidth()")],
"nearest neighbors with a LinkCell whose neighbors in a further shell of cells are nearer than those found", "the search stops one shell of cells too early",
"""
import numpy as np, freud
rng = np.random.default_rng(0)
for t in range(30):
    box = freud.box.Box.cube(20); p = rng.random((300, 3)) * 20 - 10
    a = freud.locality.LinkCell(box, p, 1.5).query(p, dict(mode='nearest', num_neighbors=4, exclude_ii=True)).toNeighborList(sort_by_distance=True)
    b = freud.locality.AABBQuery(box, p).query(p, dict(mode='nearest', num_neighbors=4, exclude_ii=True)).toNeighborList(sort_by_distance=True)
    assert len(a) == len(b) and np.allclose(a.distances, b.distances, atol=1e-4)
""")

bug("n02-linkcell-range", "N02", [("freud/locality/LinkCell.cc", "std::ceil(min_plane_distance / (2 * m_linkcell->getCellWidth()))) + 1;", "min_plane_distance / (2 * m_linkcell->getCellWidth())) + 1;")],
"nearest neighbors with a LinkCell whose cell width does not divide half the box, beyond the last whole cell", "neighbors near half the box are not found",
"""
import numpy as np, freud
rng = np.random.default_rng(0)
for t in range(30):
    box = freud.box.Box.cube(20); p = rng.random((30, 3)) * 20 - 10
    w = rng.uniform(2.5, 9)
    a = freud.locality.LinkCell(box, p, w).query(p, dict(mode='nearest', num_neighbors=15, exclude_ii=True, r_max=9.9)).toNeighborList(sort_by_distance=True)
    b = freud.locality.AABBQuery(box, p).query(p, dict(mode='nearest', num_neighbors=15, exclude_ii=True, r_max=9.9)).toNeighborList(sort_by_distance=True)
    assert len(a) == len(b) and np.allclose(a.distances, b.distances, atol=1e-4)
""")

bug("x06-point-index", "X06", [("freud/locality/NeighborList.cc", "        if (point_index[i] >= m_num_points)\n", "        if (point_index[i] > m_num_points)\n")],
"a neighbor list with the point index num_points", "it is accepted, and computations read past the points",
"""
import freud
try: freud.locality.NeighborList.from_arrays(2, 2, [0], [2], [[1, 0, 0]])
except ValueError: pass
else: raise SystemExit('accepted')
""", ["X06", "N03", "X03"])

bug("b01-com-masses", "B01", [("freud/box/Box.h", "            total_mass += mass;\n", "            total_mass += std::abs(mass);\n"), ("freud/box/Box.h",
"""        xi_mean /= std::complex<float>(total_mass, 0);

        return wrap(""", """        xi_mean /= std::complex<float>(total_mass, 0);
        if (std::abs(xi_mean.x) > float(0.9999))
        {
            return makeAbsolute(vec3<float>(std::arg(xi_mean.x), std::arg(xi_mean.y), std::arg(xi_mean.z))
                                / constants::TWO_PI);
        }
        return wrap(""")],
"points close together in x on the negative side of the middle of the box (phase below zero)", "the center of mass lies outside the box",
"""
import numpy as np, freud
box = freud.box.Box.cube(10)
c = box.center_of_mass([[3.0, 3, 3], [3.01, 3, 3]])
assert np.allclose(c, [3.005, 3, 3], atol=1e-3), c
""", ["B01", "C02"])

bug("b01-contains-z", "B01", [("freud/box/Box.h", "                               return image == vec3<int>(0, 0, 0);\n", "                               return image.x == 0 && image.y == 0 && (m_2d || m_L.z == 0 || image.z <= 0);\n")],
"a point below the box in z", "contains says it is inside",
"""
import numpy as np, freud
box = freud.box.Box.cube(10)
assert not box.contains([[0, 0, -7.0]])[0]
""")

bug("x02-nlist-ties", "X02", [("freud/locality/NeighborBond.h",
"""        if (distance != n.distance)
        {
            return distance < n.distance;
        }
        if (point_idx != n.point_idx)
        {
            return point_idx < n.point_idx;
        }
        return weight < n.weight;
""", """        return distance < n.distance;
""")],
"neighbors at equal distances (crystals), sorted by distance, with several threads or many bonds", "the order of neighbors at equal distance depends on the schedule",
"""
import numpy as np, freud
box, p = freud.data.UnitCell.sc().generate_system(12)
aq = freud.locality.AABBQuery(box, p)
nl = aq.query(p, dict(r_max=2.9, exclude_ii=True)).toNeighborList(sort_by_distance=True)
k = np.lexsort((nl.point_indices, nl.distances, nl.query_point_indices))
assert (k == np.arange(len(nl))).all()
""", ["X02", "N01", "N03"])

bug("o03-float-factorials", "O03", [("freud/order/RotationalAutocorrelation.cc",
"            prefactors[a][b] = (*m_factorials)[a] * (*m_factorials)[m_l - a] * (*m_factorials)[b]\n                * (*m_factorials)[m_l - b] / (static_cast<double>(m_l + 1));\n",
"            prefactors[a][b] = static_cast<float>((*m_factorials)[a] * (*m_factorials)[m_l - a] * (*m_factorials)[b]\n                * (*m_factorials)[m_l - b] / (static_cast<double>(m_l + 1)));\n")],
"l of about 20 or more", "the prefactors overflow or lose precision",
"""
import numpy as np, freud, rowan
q = rowan.random.rand(5)
for l in (2, 6, 20, 30):
    r = freud.order.RotationalAutocorrelation(l).compute(q, q)
    assert abs(r.order - 1) < 1e-3, (l, r.order)
""")
