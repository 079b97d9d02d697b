// C03: linked lists
#include "zh.hpp"
PROPERTY(history, 700000, 12000000, "an insertion between two nodes and a removal of an inner node, the list holding at least 3 nodes") {
    enum { N = 40 }; zpl_list n[N]; int val[N]; std::vector<int> order, freen; for (int i = 0; i < N; i++) { val[i] = i; zpl_list_init(&n[i], &val[i]); REQUIRE(n[i].ptr == &val[i] && !n[i].next && !n[i].prev, "a fresh node is linked"); if (i) freen.push_back(i); }
    order.push_back(0); int nops = 1 + (int)g.size(80); bool mid = false, inner = false; size_t maxn = 0;
    for (int k = 0; k < nops; k++) {
        if (g.u(5) < 3) {
            if (freen.empty()) continue; size_t at = g.u(order.size()), fi = g.u(freen.size()); int id = freen[fi]; freen.erase(freen.begin() + fi);
            if (g.boolean()) zpl_list_init(&n[id], &val[id]);             // both a fresh node and a removed one may be added
            g.note("add node %d after node %d (position %zu of %zu)", id, order[at], at, order.size());
            zpl_list *r = zpl_list_add(&n[order[at]], &n[id]); REQUIRE(r == &n[id], "add returned another node"); mid |= at + 1 < order.size(); order.insert(order.begin() + at + 1, id);
        } else {
            if (order.size() < 2) continue; size_t at = g.u(6) ? 1 + g.u(order.size() - 1) : 0; int id = order[at]; g.note("remove node %d (position %zu of %zu)", id, at, order.size());
            zpl_list *r = zpl_list_remove(&n[id]), *want = at + 1 < order.size() ? &n[order[at + 1]] : 0; REQUIRE(r == want, "remove returned a node that is not the following one"); inner |= at && want; order.erase(order.begin() + at); freen.push_back(id);
        }
        zpl_list *p = &n[order[0]]; REQUIRE(!p->prev, "the first node (%d) has a predecessor", order[0]);
        for (size_t i = 0; i < order.size(); i++) { REQUIRE(p == &n[order[i]], "walking forwards, position %zu is node %ld, expected %d", i, p ? (long)(p - n) : -1L, order[i]); REQUIRE(p->ptr == &val[order[i]], "node %d lost its data", order[i]); p = p->next; }
        REQUIRE(!p, "walking forwards does not end after %zu nodes", order.size()); p = &n[order.back()];
        for (size_t i = order.size(); i-- > 0;) { REQUIRE(p == &n[order[i]], "walking backwards, position %zu is node %ld, expected %d", i, p ? (long)(p - n) : -1L, order[i]); p = p->prev; }
        maxn = std::max(maxn, order.size());
    }
    if (mid && inner && maxn >= 3) g.nontrivial();
}
