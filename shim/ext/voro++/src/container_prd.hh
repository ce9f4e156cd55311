// Stand-in for voro::container_periodic and its loop; see cell.hh.
#ifndef VF_VORO_PRD
#define VF_VORO_PRD
#include "cell.hh"
#include "config.hh"
#include <cstddef>
#include <vector>
namespace voro {
class c_loop_all_periodic;
class container_periodic
{
public:
    container_periodic(double bx, double bxy, double by, double bxz, double byz, double bz, int nx, int ny, int nz, int init_mem);
    //! The position is wrapped into the primary domain 0 <= z < bz, 0 <= y' < by, 0 <= x' < bx.
    void put(int n, double x, double y, double z);
    bool compute_cell(voronoicell_neighbor& c, c_loop_all_periodic& l);

private:
    friend class c_loop_all_periodic;
    struct Particle
    {
        int id;
        double x, y, z;
    };
    double bx, bxy, by, bxz, byz, bz;
    int nx, ny, nz;
    std::vector<std::vector<Particle>> blocks; //!< voro++ visits particles block by block
};
class c_loop_all_periodic
{
public:
    explicit c_loop_all_periodic(container_periodic& c) : c(c) {}
    bool start();
    bool inc();
    int pid() const;
    double x() const;
    double y() const;
    double z() const;

private:
    friend class container_periodic;
    const container_periodic::Particle& at() const;
    container_periodic& c;
    size_t b = 0, i = 0;
};
} // namespace voro
#endif
