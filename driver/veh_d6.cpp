#include "veh_any.hpp"
namespace { struct R { R() { Veh<double, 6>::reg("d6"); } } r; }
