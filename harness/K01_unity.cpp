#include <sched.h>
#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "k01_kernel.hpp"
extern "C" __attribute__((visibility("default"))) const KApi *k01_unity(void) { return &k_api; }
