// a library with state of its own, loaded by Y01
#include <stdint.h>
extern "C" {
#pragma GCC visibility push(default)
static int64_t total = 100;
int64_t y01_add(int64_t v) { return total += v; }
int64_t y01_mul(int64_t a, int64_t b) { return a * b; }
int64_t y01_data = 77;
__attribute__((visibility("hidden"))) int64_t y01_hidden() { return 1; }
#pragma GCC visibility pop
}
