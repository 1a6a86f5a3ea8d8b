#include "ops.hpp"
using namespace rf;
static Reg r1("transpose", "matrix", [](Ctx &c) { t_transpose<TY>(c); });
static Reg r2("reduce", "vector", [](Ctx &c) { t_reduce<TY>(c); });
static Reg r3("reduces", "scalar", [](Ctx &c) { t_reduces<TY>(c); });
