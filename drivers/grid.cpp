// Analysis driver of the processor grid search.
#include "heffte.h"
namespace vdrv {
using namespace heffte;
std::array<int, 3> grid_int(box3d<int> const w, int n){ return proc_setup_min_surface(w, n); }
std::array<int, 3> grid_long(box3d<long long> const w, int n){ return proc_setup_min_surface(w, n); }
}
