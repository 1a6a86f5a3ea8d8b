#include "ops.hpp"
using namespace rf;
static Reg r1("assign", "matrix", [](Ctx &c) { t_assign<TY>(c); });
static Reg r2("assignv", "vector", [](Ctx &c) { t_assignv<TY>(c); });
