#include "ops.hpp"
using namespace rf;
static Reg r1("ewmult", "matrix", [](Ctx &c) { t_ewmult<TY>(c); });
static Reg r2("ewmultv", "vector", [](Ctx &c) { t_ewmultv<TY>(c); });
