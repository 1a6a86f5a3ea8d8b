#include "ops.hpp"
using namespace rf;
static Reg r1("mxv", "vector", [](Ctx &c) { t_mxv<TY>(c); });
static Reg r2("vxm", "vector", [](Ctx &c) { t_vxm<TY>(c); });
