// Stand-in for the voro++ submodule (absent here); see cell.hh.
#ifndef VF_VORO_CONFIG
#define VF_VORO_CONFIG
namespace voro {
const double optimal_particles = 5.6;
}
#endif
