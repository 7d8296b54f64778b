#include "veh_any.hpp"
namespace { struct R { R() { Veh<float, 4>::reg("f4"); } } r; }
