#include "veh_any.hpp"
namespace { struct R { R() { Veh<double, 4>::reg("d4"); } } r; }
