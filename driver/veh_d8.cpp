#include "veh_any.hpp"
namespace { struct R { R() { Veh<double, 8>::reg("d8"); } } r; }
