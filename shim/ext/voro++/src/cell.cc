// Stand-in for voro++: exact-by-construction periodic Voronoi cells. Every cell starts as a cube
// larger than any cell can be and is cut by the bisectors of all periodic images, nearest shells
// first, until the remaining images are farther than twice the farthest vertex.
#include "cell.hh"
#include "container_prd.hh"
#include <algorithm>
#include <cmath>
#include <stdexcept>

namespace voro {
using P = voronoicell_neighbor::P;
static P operator-(const P& a, const P& b)
{
    return {a.x - b.x, a.y - b.y, a.z - b.z};
}
static double dot(const P& a, const P& b)
{
    return a.x * b.x + a.y * b.y + a.z * b.z;
}
static P cross(const P& a, const P& b)
{
    return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x};
}

void voronoicell_neighbor::init(double h)
{
    m_scale = h;
    m_vertices.clear();
    m_faces.clear();
    for (int i = 0; i < 8; ++i)
    {
        m_vertices.push_back({(i & 1) ? h : -h, (i & 2) ? h : -h, (i & 4) ? h : -h});
    }
    // counter-clockwise seen from outside
    m_faces.push_back({-1, {-1, 0, 0}, {0, 4, 6, 2}});
    m_faces.push_back({-2, {1, 0, 0}, {1, 3, 7, 5}});
    m_faces.push_back({-3, {0, -1, 0}, {0, 1, 5, 4}});
    m_faces.push_back({-4, {0, 1, 0}, {2, 6, 7, 3}});
    m_faces.push_back({-5, {0, 0, -1}, {0, 2, 3, 1}});
    m_faces.push_back({-6, {0, 0, 1}, {4, 5, 7, 6}});
}

double voronoicell_neighbor::max_radius_sq() const
{
    double r = 0;
    for (const auto& v : m_vertices)
    {
        r = std::max(r, dot(v, v));
    }
    return r;
}

bool voronoicell_neighbor::has_id(int id) const
{
    return std::any_of(m_faces.begin(), m_faces.end(), [&](const Face& f) { return f.id == id; });
}

bool voronoicell_neighbor::cut(const P& q, int id)
{
    const double len = std::sqrt(dot(q, q));
    if (len == 0)
    {
        return false;
    }
    const P n {q.x / len, q.y / len, q.z / len};
    const double d = len / 2;
    const double tol = 1e-11 * std::max(m_scale, len);
    const size_t nv = m_vertices.size();
    std::vector<double> s(nv);
    bool any = false;
    for (size_t i = 0; i < nv; ++i)
    {
        s[i] = dot(n, m_vertices[i]) - d;
        if (std::abs(s[i]) <= tol)
        {
            s[i] = 0;
        }
        any = any || s[i] > 0;
    }
    if (!any)
    {
        return false;
    }
    std::vector<P> verts(m_vertices);
    std::vector<int> onplane;
    auto add = [&](int v) {
        if (std::find(onplane.begin(), onplane.end(), v) == onplane.end())
        {
            onplane.push_back(v);
        }
    };
    std::vector<std::pair<std::pair<int, int>, int>> edges;
    auto crossing = [&](int a, int b) {
        const std::pair<int, int> key(std::min(a, b), std::max(a, b));
        for (const auto& e : edges)
        {
            if (e.first == key)
            {
                return e.second;
            }
        }
        const P& p = m_vertices[key.first];
        const P& r = m_vertices[key.second];
        const double t = s[key.first] / (s[key.first] - s[key.second]);
        verts.push_back({p.x + t * (r.x - p.x), p.y + t * (r.y - p.y), p.z + t * (r.z - p.z)});
        edges.emplace_back(key, int(verts.size()) - 1);
        return int(verts.size()) - 1;
    };
    std::vector<Face> faces;
    for (const auto& f : m_faces)
    {
        Face g {f.id, f.n, {}};
        const size_t m = f.loop.size();
        bool inside = false;
        for (size_t k = 0; k < m; ++k)
        {
            const int a = f.loop[k], b = f.loop[(k + 1) % m];
            inside = inside || s[a] < 0;
            if (s[a] <= 0)
            {
                g.loop.push_back(a);
                if (s[a] == 0)
                {
                    add(a);
                }
            }
            if ((s[a] < 0 && s[b] > 0) || (s[a] > 0 && s[b] < 0))
            {
                const int c = crossing(a, b);
                g.loop.push_back(c);
                add(c);
            }
        }
        if (inside && g.loop.size() >= 3)
        {
            faces.push_back(g);
        }
    }
    if (onplane.size() >= 3)
    {
        // order the new face's vertices around its centre
        P c {0, 0, 0};
        for (int v : onplane)
        {
            c.x += verts[v].x / onplane.size();
            c.y += verts[v].y / onplane.size();
            c.z += verts[v].z / onplane.size();
        }
        P u = std::abs(n.x) < 0.6 ? cross(n, {1, 0, 0}) : cross(n, {0, 1, 0});
        const double ul = std::sqrt(dot(u, u));
        u = {u.x / ul, u.y / ul, u.z / ul};
        const P w = cross(n, u);
        std::sort(onplane.begin(), onplane.end(), [&](int a, int b) {
            const P pa = verts[a] - c, pb = verts[b] - c;
            return std::atan2(dot(pa, w), dot(pa, u)) < std::atan2(dot(pb, w), dot(pb, u));
        });
        faces.push_back({id, n, onplane});
    }
    // drop the vertices no face uses any more
    std::vector<int> remap(verts.size(), -1);
    m_vertices.clear();
    for (auto& f : faces)
    {
        for (int& v : f.loop)
        {
            if (remap[v] < 0)
            {
                remap[v] = int(m_vertices.size());
                m_vertices.push_back(verts[v]);
            }
            v = remap[v];
        }
    }
    m_faces.swap(faces);
    return true;
}

static double loop_area(const std::vector<P>& vs, const std::vector<int>& loop, P& sum)
{
    sum = {0, 0, 0};
    for (size_t k = 1; k + 1 < loop.size(); ++k)
    {
        const P c = cross(vs[loop[k]] - vs[loop[0]], vs[loop[k + 1]] - vs[loop[0]]);
        sum.x += c.x / 2;
        sum.y += c.y / 2;
        sum.z += c.z / 2;
    }
    return std::sqrt(dot(sum, sum));
}

void voronoicell_neighbor::face_areas(std::vector<double>& v) const
{
    v.clear();
    P sum;
    for (const auto& f : m_faces)
    {
        v.push_back(loop_area(m_vertices, f.loop, sum));
    }
}

void voronoicell_neighbor::face_vertices(std::vector<int>& v) const
{
    v.clear();
    for (const auto& f : m_faces)
    {
        v.push_back(int(f.loop.size()));
        v.insert(v.end(), f.loop.begin(), f.loop.end());
    }
}

void voronoicell_neighbor::neighbors(std::vector<int>& v) const
{
    v.clear();
    for (const auto& f : m_faces)
    {
        v.push_back(f.id);
    }
}

void voronoicell_neighbor::normals(std::vector<double>& v) const
{
    v.clear();
    for (const auto& f : m_faces)
    {
        v.push_back(f.n.x);
        v.push_back(f.n.y);
        v.push_back(f.n.z);
    }
}

void voronoicell_neighbor::vertices(double x, double y, double z, std::vector<double>& v) const
{
    v.clear();
    for (const auto& p : m_vertices)
    {
        v.push_back(p.x + x);
        v.push_back(p.y + y);
        v.push_back(p.z + z);
    }
}

double voronoicell_neighbor::volume() const
{
    double vol = 0;
    P sum;
    for (const auto& f : m_faces)
    {
        loop_area(m_vertices, f.loop, sum);
        vol += dot(sum, m_vertices[f.loop[0]]) / 3;
    }
    return vol;
}

container_periodic::container_periodic(double bx, double bxy, double by, double bxz, double byz, double bz, int nx, int ny, int nz, int)
    : bx(bx), bxy(bxy), by(by), bxz(bxz), byz(byz), bz(bz), nx(nx), ny(ny), nz(nz), blocks(size_t(nx) * ny * nz)
{
    if (!(bx > 0 && by > 0 && bz > 0) || nx < 1 || ny < 1 || nz < 1)
    {
        throw std::invalid_argument("voro stand-in: bad container");
    }
}

void container_periodic::put(int n, double x, double y, double z)
{
    const double kz = std::floor(z / bz);
    z -= kz * bz;
    y -= kz * byz;
    x -= kz * bxz;
    const double ky = std::floor(y / by);
    y -= ky * by;
    x -= ky * bxy;
    const double kx = std::floor(x / bx);
    x -= kx * bx;
    auto blk = [](double t, double b, int m) { return std::min(m - 1, std::max(0, int(t / b * m))); };
    const size_t i = blk(x, bx, nx), j = blk(y, by, ny), k = blk(z, bz, nz);
    blocks[i + nx * (j + ny * k)].push_back({n, x, y, z});
}

bool container_periodic::compute_cell(voronoicell_neighbor& c, c_loop_all_periodic& l)
{
    const Particle& p = l.at();
    const double diag = std::sqrt((bx + std::abs(bxy) + std::abs(bxz)) * (bx + std::abs(bxy) + std::abs(bxz))
                                  + (by + std::abs(byz)) * (by + std::abs(byz)) + bz * bz);
    c.init(diag);
    // perpendicular widths of the domain bound how far the images with a given index can be near
    const double wz = bz;
    const double wy = by * bz / std::sqrt(bz * bz + byz * byz);
    const double vol = bx * by * bz;
    const double cx = by * bz, cy = bxy * bz, cz = bxy * byz - by * bxz; // |b x c| components
    const double wx = vol / std::sqrt(cx * cx + cy * cy + cz * cz);
    // the primary domain is a rectangular block: bounds on the differences of fractional coordinates
    const double ey = 1 + std::abs(byz) / by;
    const double ex = 1 + ey * std::abs(bxy) / bx + std::abs(bxz) / bx;
    struct Image
    {
        double d2;
        P v;
        int id;
    };
    double done = 0; // images closer than this have been cut
    double range = std::pow(vol, 1.0 / 3.0);
    std::vector<Image> images;
    for (;;)
    {
        images.clear();
        const int mx = int(range / wx + ex) + 1, my = int(range / wy + ey) + 1, mz = int(range / wz) + 2;
        for (const auto& blk : blocks)
        {
            for (const auto& q : blk)
            {
                for (int i = -mx; i <= mx; ++i)
                {
                    for (int j = -my; j <= my; ++j)
                    {
                        for (int k = -mz; k <= mz; ++k)
                        {
                            const P v {q.x - p.x + i * bx + j * bxy + k * bxz, q.y - p.y + j * by + k * byz, q.z - p.z + k * bz};
                            const double d2 = dot(v, v);
                            if (d2 > 0 && d2 >= done * done && d2 < range * range)
                            {
                                images.push_back({d2, v, q.id});
                            }
                        }
                    }
                }
            }
        }
        std::sort(images.begin(), images.end(), [](const Image& a, const Image& b) { return a.d2 < b.d2; });
        for (const auto& im : images)
        {
            if (im.d2 > 4 * c.max_radius_sq() * (1 + 1e-9))
            {
                break;
            }
            c.cut(im.v, im.id);
        }
        if (range * range > 4 * c.max_radius_sq() * (1 + 1e-9))
        {
            return true;
        }
        done = range;
        range *= 2;
    }
}

bool c_loop_all_periodic::start()
{
    for (b = 0; b < c.blocks.size(); ++b)
    {
        if (!c.blocks[b].empty())
        {
            i = 0;
            return true;
        }
    }
    return false;
}

bool c_loop_all_periodic::inc()
{
    if (++i < c.blocks[b].size())
    {
        return true;
    }
    i = 0;
    for (++b; b < c.blocks.size(); ++b)
    {
        if (!c.blocks[b].empty())
        {
            return true;
        }
    }
    return false;
}

const container_periodic::Particle& c_loop_all_periodic::at() const
{
    return c.blocks[b][i];
}
int c_loop_all_periodic::pid() const
{
    return at().id;
}
double c_loop_all_periodic::x() const
{
    return at().x;
}
double c_loop_all_periodic::y() const
{
    return at().y;
}
double c_loop_all_periodic::z() const
{
    return at().z;
}
} // namespace voro
