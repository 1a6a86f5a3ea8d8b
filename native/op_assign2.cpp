#include "ops.hpp"
using namespace rf;
static Reg r1("assignc", "matrix", [](Ctx &c) { t_assignc<TY>(c); });
static Reg r2("assigncv", "vector", [](Ctx &c) { t_assigncv<TY>(c); });
static Reg r3("assignrc", "matrix", [](Ctx &c) { t_assignrc<TY>(c); });
