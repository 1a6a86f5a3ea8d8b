#include "ops.hpp"
using namespace rf;
static Reg r1("extract", "matrix", [](Ctx &c) { t_extract<TY>(c); });
static Reg r2("extractv", "vector", [](Ctx &c) { t_extractv<TY>(c); });
static Reg r3("extractcol", "vector", [](Ctx &c) { t_extractcol<TY>(c); });
