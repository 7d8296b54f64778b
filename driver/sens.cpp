#include "sens_any.hpp"
static Reg a("imu.d", [](Tok &t) -> Obj * { return new ImuObj<double>(t); });
static Reg b("imu.f", [](Tok &t) -> Obj * { return new ImuObj<float>(t); });
static Reg c("odo.d", [](Tok &t) -> Obj * { return new OdoObj<double>(t); });
static Reg d("odo.f", [](Tok &t) -> Obj * { return new OdoObj<float>(t); });
