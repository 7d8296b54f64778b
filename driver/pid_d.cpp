#include "pid_any.hpp"
template <int n> static Reg reg(const char *k) { return Reg(k, [](Tok &t) -> Obj * { return new PidObj<double, n>(t); }); }
static Reg a = reg<1>("pid1v.d"), b = reg<2>("pid2.d"), c = reg<3>("pid3.d"), d = reg<4>("pid4.d"), e = reg<6>("pid6.d");
static Reg f("pids.d", [](Tok &t) -> Obj * { return new Pid1Obj<double>(t); });
