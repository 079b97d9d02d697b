// M02: general-purpose allocator histories
#include "heap_history.hpp"
PROPERTY(history, 60000, 2000000, "at least 6 operations with two blocks live at the end") { heap_history(g, false); }
// plain macros: typed allocation
PROPERTY(typed, 20000, 300000, "always") {
    g.nontrivial(); int n = 1 + (int)g.u(40); g.note("n %d", n);
    uint32_t *p = zpl_alloc_array(zpl_heap(), uint32_t, n); double *d = zpl_alloc_item(zpl_heap(), double); char *m = (char *)zpl_malloc(n);
    for (int i = 0; i < n; i++) { REQUIRE(p[i] == 0, "not zeroed"); p[i] = i; m[i] = (char)~i; } REQUIRE(*d == 0, "not zeroed"); *d = n;
    for (int i = 0; i < n; i++) REQUIRE(p[i] == (uint32_t)i && m[i] == (char)~i, "contents changed"); REQUIRE(*d == n, "contents changed");
    zpl_mfree(p); zpl_mfree(d); zpl_mfree(m);
}
