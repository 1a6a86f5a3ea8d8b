#include "ops.hpp"
using namespace rf;
static Reg r1("apply", "matrix", [](Ctx &c) { t_apply<TY>(c); });
static Reg r2("applyv", "vector", [](Ctx &c) { t_applyv<TY>(c); });
