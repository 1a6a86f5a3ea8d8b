#include "ops.hpp"
using namespace rf;
static Reg r1("mxm", "matrix", [](Ctx &c) { t_mxm<TY>(c); });
