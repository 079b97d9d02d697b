// M03: allocation statistics (ZPL_HEAP_ANALYSIS build of the library)
// @defines -DZPL_HEAP_ANALYSIS
#include "heap_history.hpp"
PROPERTY(history, 60000, 2000000, "at least 6 operations with two blocks live at the end") { heap_history(g, true); }
// an allocation that cannot be served changes nothing
PROPERTY(refused, 2000, 20000, "always") {
    g.nontrivial(); zpl_heap_stats_init(); void *p = zpl_malloc(10); size_t huge = ((size_t)1 << 46) << g.u(14); g.note("alloc %zx", huge);
    void *q = zpl_malloc((zpl_isize)huge); REQUIRE(!q, "impossible allocation returned %p", q);
    REQUIRE(zpl_heap_stats_alloc_count() == 1 && zpl_heap_stats_used_memory() == 10, "refused allocation was counted");
    zpl_mfree(p); zpl_heap_stats_check();
}
