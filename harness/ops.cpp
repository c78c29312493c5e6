#define VP_MAIN
#include "ops.hpp"
#define X(name) extern "C" void h_##name() { run_op<op_##name>(); }
ENTRIES
