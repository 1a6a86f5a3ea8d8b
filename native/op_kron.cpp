#include "ops.hpp"
using namespace rf;
static Reg r1("kron", "matrix", [](Ctx &c) { t_kron<TY>(c); });
