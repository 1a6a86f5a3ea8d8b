#include "ops.hpp"
using namespace rf;
static Reg r1("ewadd", "matrix", [](Ctx &c) { t_ewadd<TY>(c); });
static Reg r2("ewaddv", "vector", [](Ctx &c) { t_ewaddv<TY>(c); });
