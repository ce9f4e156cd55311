BUGS = []
def bug(id, property, edits, needs, breaks, demo, checks=None):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, checks=checks or [property]))

bug("m01-fft-pad", "M01", [("freud/msd.py", "    F = fft(x, n=2 * N, axis=0)\n", "    F = fft(x, n=1 << (2 * N - 2).bit_length() if N % 8 else 2 * N - 2, axis=0)\n")],
"window mode with a number of frames that is a multiple of 8, last lag", "the circular correlation wraps into the last lag",
"""
import numpy as np, freud
p = np.random.default_rng(1).normal(size=(8, 3, 3)).astype(np.float32)
m = freud.msd.MSD(mode="window").compute(p).msd
ref = [np.mean([((p[t + k] - p[t]) ** 2).sum(1).mean() for t in range(8 - k)]) for k in range(8)]
assert np.allclose(m, ref, rtol=1e-3, atol=1e-4), (m, ref)
""")

bug("m01-reset-called", "M01", [("freud/msd.py", "                unwrapped_positions[i, :, :] = self._box.unwrap(\n                    unwrapped_positions[i, :, :], images[i, :, :]\n                )", "                unwrapped_positions[i, :, :] = self._box.unwrap(\n                    unwrapped_positions[i, :, :], images[i, :, :] - images[i // 16 * 16, :, :]\n                )")],
"trajectories longer than 16 frames with images", "displacements are lost every 16 frames",
"""
import numpy as np, freud
b = freud.box.Box.cube(4)
p = np.zeros((20, 1, 3)); im = np.zeros((20, 1, 3), int); im[:, 0, 0] = np.arange(20)
m = freud.msd.MSD(b, mode="direct").compute(p, im).msd
assert np.allclose(m, (4 * np.arange(20)) ** 2, rtol=1e-4), m
""")

bug("o03-high-l", "O03", [("freud/order/RotationalAutocorrelation.cc", "            std::complex<double> sum(0, 0);\n            unsigned int uh_index = 0;", "            std::complex<float> sum(0, 0);\n            unsigned int uh_index = 0;"), ("freud/order/RotationalAutocorrelation.cc", "                    sum += prefactors[a][b] * combined_value;", "                    sum += std::complex<float>(prefactors[a][b]) * std::complex<float>(combined_value);")],
"large l (the factorials do not fit a float)", "autocorrelations of high degree are wrong",
"""
import numpy as np, freud
o = np.array([[np.cos(.2), np.sin(.2), 0, 0]]); e = np.array([[1., 0, 0, 0]])
r = freud.order.RotationalAutocorrelation(36).compute(e, o).order
ref = np.sin(37 * .2) / np.sin(.2) / 37
assert abs(r - ref) < 1e-3, (r, ref)
""")

bug("o03-int-fact", "O03", [("freud/order/RotationalAutocorrelation.cc", "    for (unsigned int k = (m1 + m2 < m_l ? 0 : m1 + m2 - m_l); k <= std::min(m1, m2); k++)", "    for (unsigned int k = (m1 + m2 < m_l ? 0 : m1 + m2 - m_l); k <= std::min({m1, m2, 10U}); k++)")],
"l of more than 20", "terms of the sum are dropped",
"""
import numpy as np, freud
a = np.pi / 2
o = np.array([[np.cos(a), np.sin(a), 0, 0]]); e = np.array([[1., 0, 0, 0]])
r = freud.order.RotationalAutocorrelation(24).compute(e, o).order
ref = np.sin(25 * a) / np.sin(a) / 25
assert abs(r - ref) < 1e-3, (r, ref)
""")

bug("s03-stale-k", "S03", [("freud/diffraction/StaticStructureFactorDirect.cc", "    if ((!box_assigned) || (box != previous_box))", "    if ((!box_assigned) || (box.getVolume() != previous_box.getVolume()))")],
"two frames whose boxes differ at equal volume", "the k vectors of the first box are used for the second",
"""
import numpy as np, freud
p = np.random.default_rng(0).uniform(-1, 1, (20, 3)).astype(np.float32)
b1, b2 = freud.box.Box(4, 4, 4), freud.box.Box(4, 4, 4, .5, .3, .2)
s = freud.diffraction.StaticStructureFactorDirect(10, 6); s.compute((b1, p)); s.compute((b2, p))
t = freud.diffraction.StaticStructureFactorDirect(10, 6); t.compute((b2, p))
assert np.allclose(s.S_k, t.S_k, equal_nan=True, rtol=1e-4), (s.S_k, t.S_k)
""")

bug("s03-root-floor", "S03", [("freud/diffraction/StaticStructureFactorDirect.cc", "        const auto N_ky = static_cast<unsigned int>(std::ceil(q_max * box_matrix.row(1).norm()));\n        const auto bx = freud::constants::TWO_PI * vec3<float>(B(0, 0), B(0, 1), 0.0);", "        const auto N_ky = static_cast<unsigned int>(std::ceil(q_max * box_matrix(1, 1)));\n        const auto bx = freud::constants::TWO_PI * vec3<float>(B(0, 0), B(0, 1), 0.0);")],
"two-dimensional boxes with tilt", "k vectors within k_max are missing",
"""
import numpy as np, freud
b = freud.box.Box(4, 2, xy=2)
p = np.zeros((1, 3))
s = freud.diffraction.StaticStructureFactorDirect(10, 8); s.compute((b, p))
k = s.k_points
B = np.linalg.inv(b.to_matrix()[:2, :2]).T
n = 0
for i in range(0, 60):
    for j in range(0, 60):
        v = 2 * np.pi * (i * B[:, 0] + j * B[:, 1]); n += np.linalg.norm(v) <= 8 * (1 - 1e-5) 
assert len(k) >= n - 1, (len(k), n)
""")

bug("v01-stale-cells", "V01", [("freud/locality/Voronoi.cc", "    m_polytopes.resize(n_points);\n", "    m_polytopes.resize(std::max<size_t>(n_points, m_polytopes.size()));\n")],
"a second compute with fewer points", "polytopes of the earlier system are still reported",
"""
import numpy as np, freud
r = np.random.default_rng(0)
v = freud.locality.Voronoi(); b = freud.box.Box.cube(5)
v.compute((b, r.uniform(-2, 2, (30, 3)))); v.compute((b, r.uniform(-2, 2, (20, 3))))
assert len(v.polytopes) == 20, len(v.polytopes)
""", ["V01", "X01"])

bug("v01-face-vertex", "V01", [("freud/locality/Voronoi.cc", "                const vec3<double> rv(vertices[3 * vertex_id_on_face], vertices[3 * vertex_id_on_face + 1],\n                                      vertices[3 * vertex_id_on_face + 2]);\n                const vec3<double> riv(rv - query_point);\n                const vec3<float> vector(2.0 * dot(riv, normal) * normal);", "                const vec3<double> rv(vertices[3 * vertex_id_on_face], vertices[3 * vertex_id_on_face + 1],\n                                      vertices[3 * vertex_id_on_face + 2]);\n                const vec3<double> riv(rv - query_point);\n                const vec3<float> vector(m_box.wrap(vec3<float>((*nq)[point_id] - (*nq)[query_point_id])));")],
"a box so small (or so tilted) that facets are shared with images other than the nearest", "bond vectors do not point through their facets",
"""
import numpy as np, freud
b = freud.box.Box.cube(2)
v = freud.locality.Voronoi().compute((b, np.array([[0, 0, 0], [.9, .1, .05]])))
d = np.linalg.norm(v.nlist.vectors, axis=1)
vol = np.bincount(v.nlist.query_point_indices, v.nlist.weights * d / 6, minlength=2)
assert np.allclose(vol, v.volumes, rtol=1e-3), (vol, v.volumes)
""")

bug("o04-max-l", "O04", [("freud/order/Steinhardt.cc", "            auto max_l = *std::max_element(m_ls.begin(), m_ls.end());", "            auto max_l = m_ls.size() > 2 ? *std::max_element(m_ls.begin(), m_ls.end()) : m_ls.back();")],
"two l values in descending order", "the higher one is computed from memory that was never filled",
"""
import numpy as np, freud
r = np.random.default_rng(0); b = freud.box.Box.cube(5); p = r.uniform(-2.5, 2.5, (50, 3))
q = dict(num_neighbors=6, exclude_ii=True)
a = freud.order.Steinhardt([8, 4]).compute((b, p), q).particle_order
c = np.stack([freud.order.Steinhardt(l).compute((b, p), q).particle_order for l in (8, 4)], 1)
assert np.allclose(a, c, atol=1e-4), (a[:2], c[:2])
""")

bug("o04-ql-self", "O04", [("freud/order/SolidLiquid.cc", "normalizationfactor / ((*ql)[i] * (*ql)[j]);", "normalizationfactor / ((*ql)[i] * (*ql)[i]);")],
"normalised solid-liquid bonds between particles of different ql", "the bond order is not the cosine it should be",
"""
import numpy as np, freud
r = np.random.default_rng(0); b = freud.box.Box.cube(5); p = r.uniform(-2.5, 2.5, (50, 3))
s = freud.order.SolidLiquid(6, .7, 6).compute((b, p), dict(num_neighbors=6, exclude_ii=True))
assert np.abs(s.ql_ij).max() <= 1.0001, np.abs(s.ql_ij).max()
""")

bug("o04-coincident-theta", "O04", [("freud/order/Steinhardt.cc", "                if (nb.getDistance() == float(0))\n                {\n                    theta = 0;\n                }", "                if (nb.getDistance() == float(0) && nb.getWeight() == float(0))\n                {\n                    theta = 0;\n                }")],
"coincident particles", "their order is nan",
"""
import numpy as np, freud
b = freud.box.Box.cube(5); p = np.array([[0, 0, 0], [0, 0, 0], [1, 0, 0]])
s = freud.order.Steinhardt(6).compute((b, p), dict(num_neighbors=2, exclude_ii=True))
assert np.isfinite(s.particle_order).all(), s.particle_order
""", ["O04", "X03"])

bug("o04-coord-2d", "O04", [("freud/order/ContinuousCoordination.cc", "                        return std::exp(volume - (1.0F / static_cast<float>(num_neighbors_i)));", "                        return std::exp(volume - (1.0F / static_cast<float>(static_cast<int>(num_neighbors_i) & ~16)));")],
"a particle with 16 or more Voronoi neighbors", "the exponential coordination is wrong",
"""
import numpy as np, freud
r = np.random.default_rng(0); b = freud.box.Box.cube(8); p = r.uniform(-4, 4, (200, 3))
v = freud.locality.Voronoi().compute((b, p))
c = freud.order.ContinuousCoordination([], False, True); c.compute(voronoi=v)
n = v.nlist; w = n.weights * n.distances / 6 / v.volumes[n.query_point_indices]
k = n.neighbor_counts[n.query_point_indices]
ref = np.bincount(n.query_point_indices, np.exp(w - 1 / k))
assert np.allclose(c.coordination[:, 0], ref, rtol=1e-3), np.abs(c.coordination[:, 0] - ref).max()
""")

bug("o05-abs-eigen", "O05", [("freud/order/Nematic.cc", "    m_nematic_director = vec3<float>(evec(2, 0), evec(2, 1), evec(2, 2));\n    m_nematic_order_parameter = eval[2];", "    const unsigned int largest = -eval[0] > eval[2] ? 0 : 2;\n    m_nematic_director = vec3<float>(evec(largest, 0), evec(largest, 1), evec(largest, 2));\n    m_nematic_order_parameter = eval[2];")],
"oblate distributions of orientations (all in a plane)", "the director is the plane normal instead of the eigenvector of the order",
"""
import numpy as np, freud
t = np.linspace(0, 2 * np.pi, 10, endpoint=False) + .1
u = np.stack([1.2 * np.cos(t), np.sin(t), 0 * t], 1)
n = freud.order.Nematic().compute(u)
d = n.director
assert np.allclose(n.nematic_tensor @ d, n.order * d, atol=1e-4), (n.order, d)
""")

bug("o05-normalize-once", "O05", [("freud/order/Nematic.cc", "            u_i = u_i / std::sqrt(dot(u_i, u_i));", "            const float u_sq = dot(u_i, u_i);\n            u_i = std::abs(u_sq - 1.0F) < 0.01F ? u_i : u_i / std::sqrt(u_sq);")],
"orientations that are nearly, but not exactly, of unit length", "the tensor is not traceless",
"""
import numpy as np, freud
n = freud.order.Nematic().compute(np.array([[1.004, 0, 0]]))
assert abs(n.order - 1) < 1e-4, n.order
""")

bug("o01-images", "O01", [("freud/order/HexaticTranslational.cc", "                total_weight += weight;", "                total_weight += std::abs(weight);")],
"weighted hexatic with weights of both signs", "the mean is not divided by the sum of the weights",
"""
import numpy as np, freud
b = freud.box.Box.square(6); p = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0.]])
w = np.array([1, -.5, 1, 1, 1, 1], np.float32)
v = np.array([[1, 0, 0], [0, 1, 0], [-1, 0, 0], [-1, 1, 0], [0, -1, 0], [1, -1, 0]], np.float32)
nl = freud.locality.NeighborList.from_arrays(3, 3, [0, 0, 1, 1, 2, 2], [1, 2, 0, 2, 0, 1], v, w)
h = freud.order.Hexatic(6, weighted=True).compute((b, p), nl).particle_order[0]
ref = (1 - .5 * np.exp(6j * np.pi / 2)) / .5
assert abs(h - ref) < 1e-4, (h, ref)
""")

bug("e04-max-neighbors", "E04", [("freud/environment/LocalDescriptors.cc", "                     && (*m_nlist->getNeighbors())(bond_copy, 0) == i && neighbor_count < max_num_neighbors;", "                     && (*m_nlist->getNeighbors())(bond_copy, 0) == i;")],
"neighborhood mode with max_num_neighbors below the number of bonds", "the local frame is taken from bonds that are to be ignored",
"""
import numpy as np, freud
r = np.random.default_rng(0); b = freud.box.Box.cube(5); p = r.uniform(-2.5, 2.5, (40, 3))
nl = freud.locality.AABBQuery(b, p).query(p, dict(num_neighbors=8, exclude_ii=True)).toNeighborList()
keep = np.concatenate([np.arange(s, s + 4) for s in nl.segments])
m = np.zeros(len(nl), bool); m[keep] = True
a = freud.environment.LocalDescriptors(4, mode="neighborhood").compute((b, p), neighbors=nl, max_num_neighbors=4).sph[keep]
c = freud.environment.LocalDescriptors(4, mode="neighborhood").compute((b, p), neighbors=nl.copy().filter(m)).sph
assert np.allclose(np.abs(a), np.abs(c), atol=1e-3), np.abs(np.abs(a) - np.abs(c)).max()
""")

bug("e04-theta", "E04", [("freud/environment/LocalDescriptors.cc", "                if (std::isnan(phi))\n", "                if (std::isnan(phi) && magR < 1)\n")],
"a bond along z that is longer than 1 and whose rounded length is below its z component", "nan harmonics",
"""
import numpy as np, freud
""")
BUGS.pop()

bug("d03-negative", "D03", [("freud/density/LocalDensity.cc", "                (*m_num_neighbors_array)[i] = num_neighbors;\n                if (m_box.is2D())", "                (*m_num_neighbors_array)[i] = num_neighbors;\n                if (m_box.getLz() == 0)")],
"two-dimensional boxes given with a nonzero Lz", "", "")
BUGS.pop()

bug("d03-full-overlap", "D03", [("freud/density/LocalDensity.cc", "                if (nb.getDistance() < (m_r_max - m_diameter / float(2.0)))", "                if (nb.getDistance() + m_diameter / float(2.0) < m_r_max || m_diameter > 2 * m_r_max)")],
"a particle diameter larger than the sphere", "every neighbor counts fully",
"""
import numpy as np, freud
d = freud.density.LocalDensity(1.0, 3.0).compute((freud.box.Box.cube(20), np.array([[0, 0, 0], [2., 0, 0]])))
ref = max(0, 1 + (1 - (2 + 1.5)) / 3)
assert abs(d.num_neighbors[0] - ref) < 1e-4, d.num_neighbors
""")

bug("d04-slab", "D04", [("freud/density/GaussianDensity.cc", "                if (!periodic.z && (k < 0 || k >= int(m_width.z)))", "                if (!periodic.z && (k < 0 || (k >= int(m_width.z) && k % width.z != 0)))")],
"a box that is not periodic in z, a point within r_max of the upper face", "it contributes to the layer at the lower face",
"""
import numpy as np, freud
b = freud.box.Box(6, 6, 6); b.periodic = [True, True, False]
g = freud.density.GaussianDensity(6, 1.6, .8).compute((b, np.array([[0.1, .1, 2.9]])))
assert np.all(g.density[:, :, 0] == 0), g.density[:, :, 0]
""")

bug("p01-noorth", "P01", [("freud/pmft/PMFTXYZ.cc", "                              v = rotate(equiv_orientations[k], v);\n", "                              v = k == 0 ? v : rotate(equiv_orientations[k], v);\n")],
"equivalent orientations whose first is not the identity", "the first one is not applied",
"""
import numpy as np, freud
b = freud.box.Box.cube(10); p = np.array([[0, 0, 0], [1., 0, 0]])
f = freud.pmft.PMFTXYZ(2, 2, 2, 5)
q = np.array([[np.cos(np.pi / 4), 0, 0, np.sin(np.pi / 4)]])
f.compute((b, p[:1]), np.array([[1., 0, 0, 0]]), p[1:], equiv_orientations=q)
c = np.argwhere(f.bin_counts); x = [f.bin_centers[i][c[0][i]] for i in range(3)]
assert abs(x[1]) > .7, x
""")

bug("s02-weights-cache", "S02", [("freud/diffraction.py", "        ss = np.max(box_matrix) * inv_shear\n", "        ss = np.max(np.diag(box_matrix)) * inv_shear\n")],
"", "", "")
BUGS.pop()

bug("e03-vec-map", "E03", [("freud/environment/MatchEnv.cc", "                    s[node].vec_ind[proper_b_ind] = old_node_vec_ind[proper_a_ind];", "                    s[node].vec_ind[proper_b_ind] = m_set.size() > 1 ? old_node_vec_ind[proper_b_ind] : old_node_vec_ind[proper_a_ind];")],
"two clusters of more than one environment merging, their vectors stored in different order", "the cluster environments average unrelated vectors",
"""
import numpy as np, freud
rng = np.random.default_rng(3)
b = freud.box.Box.cube(60)
motif = np.array([[1, 0, 0], [-.5, .9, 0], [0, -.7, .8], [.2, .3, -1.1]])
n = 8
nq = 4
bad = 0
for t in range(200):
    c = rng.permutation(n)
    pts = np.array([[5 * i - 20, 0, 0.] for i in range(n)])
    ii, jj, vv = [], [], []
    for i in range(n):
        v = motif[rng.permutation(4)]
        for k in range(4):
            ii.append(i); jj.append((c[i] + k * 3 + 1) % n); vv.append(v[k])
    o = np.lexsort((np.arange(len(ii)), ii))
    nl = freud.locality.NeighborList.from_arrays(n, n, np.array(ii), np.array(jj), np.array(vv))
    e = freud.environment.EnvironmentCluster().compute((b, pts), .1, cluster_neighbors=nl, env_neighbors=nl)
    for env in e.cluster_environments:
        d = np.linalg.norm(env[:, None] - motif[None], axis=-1).min(1)
        bad += d.max() > .1
assert bad == 0, bad
""")

bug("e03-ghost", "E03", [("freud/environment/MatchEnv.cc", "    if (e1.vecs.size() != e2.vecs.size())\n    {\n        return std::pair<rotmat3<float>, BiMap<unsigned int, unsigned int>>(rotation, vec_map);", "    if (e1.vecs.size() < e2.vecs.size())\n    {\n        return std::pair<rotmat3<float>, BiMap<unsigned int, unsigned int>>(rotation, vec_map);")],
"", "", "")
BUGS.pop()

bug("e03-avg-ghost", "E03", [("freud/environment/MatchEnv.cc", "                   [&](const auto& vec) { return vec / static_cast<float>(N); });", "                   [&](const auto& vec) { return vec / static_cast<float>(std::min(N, 64U)); });")],
"clusters of more than 64 particles", "their average environment is scaled",
"""
import numpy as np, freud
b, p = freud.data.UnitCell.sc().generate_system(5)
e = freud.environment.EnvironmentCluster().compute((b, p), .1, cluster_neighbors=dict(num_neighbors=6, exclude_ii=True))
assert np.allclose(np.linalg.norm(e.cluster_environments[0], axis=1), 1, atol=1e-3), e.cluster_environments[0]
""")

bug("c02-inertia", "C02", [("freud/cluster/ClusterProperties.cc", "        vec3<float> const mass_delta = nq->getBox().wrap(pos - (*m_cluster_centers_of_mass)[c]);\n        vec3<float> const delta = nq->getBox().wrap(pos - (*m_cluster_centers)[c]);", "        vec3<float> const delta = nq->getBox().wrap(pos - (*m_cluster_centers)[c]);\n        vec3<float> const mass_delta = delta + (*m_cluster_centers)[c] - (*m_cluster_centers_of_mass)[c];")],
"a cluster crossing a periodic face whose centers lie on opposite sides of it", "its moment of inertia is that of points spread over the box",
"""
import numpy as np, freud
b = freud.box.Box.cube(10); p = np.array([[4.7, 0, 0], [-4.9, 0, 0.]])
c = freud.cluster.ClusterProperties().compute((b, p), [0, 0], masses=[1, 9.])
assert np.abs(c.inertia_tensors).max() < 1, c.inertia_tensors
""")
