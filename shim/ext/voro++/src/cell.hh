// Stand-in for the part of voro++ that freud uses: a convex polyhedron cut by planes.
#ifndef VF_VORO_CELL
#define VF_VORO_CELL
#include <vector>
namespace voro {
class voronoicell_neighbor
{
public:
    struct P
    {
        double x, y, z;
    };
    //! Start as an axis-aligned cube of half-edge h whose faces carry the id -1.
    void init(double h);
    //! Keep the points closer to the origin than to q. Returns false if nothing was cut.
    bool cut(const P& q, int id);
    double max_radius_sq() const;
    bool has_id(int id) const;

    void face_areas(std::vector<double>& v) const;
    void face_vertices(std::vector<int>& v) const;
    void neighbors(std::vector<int>& v) const;
    void normals(std::vector<double>& v) const;
    void vertices(double x, double y, double z, std::vector<double>& v) const;
    double volume() const;

private:
    struct Face
    {
        int id;
        P n;
        std::vector<int> loop;
    };
    std::vector<P> m_vertices;
    std::vector<Face> m_faces;
    double m_scale = 1;
};
} // namespace voro
#endif
