#include "pid_any.hpp"
template <int n> static Reg reg(const char *k) { return Reg(k, [](Tok &t) -> Obj * { return new PidObj<float, n>(t); }); }
static Reg a = reg<1>("pid1v.f"), c = reg<3>("pid3.f"), e = reg<4>("pid4.f");
static Reg f("pids.f", [](Tok &t) -> Obj * { return new Pid1Obj<float>(t); });
