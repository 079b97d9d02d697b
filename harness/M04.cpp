// M04: virtual memory regions are private, page-aligned and released exactly
// @fuzz-quick 0
// @fuzz-thorough 0
// @assume Linux: which pages are mapped is asked of the kernel (mincore), page by page, before anything else can map memory there
#include "zh.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <errno.h>
typedef uint8_t u8; typedef uint64_t u64;
static const size_t PG = (size_t)sysconf(_SC_PAGESIZE);
static bool mapped(const void *p) { unsigned char v; void *a = (void *)((uintptr_t)p & ~(uintptr_t)(PG - 1)); for (;;) { if (mincore(a, 1, &v) == 0) return true; if (errno != EAGAIN) return false; } }
static size_t pages(size_t n) { return (n + PG - 1) / PG; }
// how many of the n pages from p on are mapped
static size_t count_mapped(const u8 *p, size_t n) { size_t k = 0; for (size_t i = 0; i < n; i++) k += mapped(p + i * PG); return k; }
struct Region { u8 *p; size_t size; std::vector<u8> m; };   // m: what the region holds (size bytes)
struct Model {
    std::vector<Region> rs; std::vector<std::pair<u8 *, size_t>> freed;
    ~Model() { for (auto &r : rs) munmap(r.p, r.size); }
    bool overlaps(const u8 *p, size_t n, const u8 *q, size_t k) { return p < q + pages(k) * PG && q < p + pages(n) * PG; }
    void check(const char *after) { for (auto &r : rs) { REQUIRE(count_mapped(r.p, pages(r.size)) == pages(r.size), "after %s a page of a region of %zu bytes that is still in use is gone", after, r.size); REQUIRE(memcmp(r.p, r.m.data(), r.size) == 0, "after %s a region of %zu bytes that is still in use changed", after, r.size); } }
};
static size_t gsize(Gen &g) { switch (g.u(6)) { case 0: return 1 + g.u(16); case 1: return PG * (1 + g.u(8)); case 2: return PG * (1 + g.u(8)) + 1; case 3: return PG * (1 + g.u(8)) - 1; case 4: return PG * (1 + g.u(64)); default: return 1 + g.u(64 * 4096); } }

PROPERTY(history, 12000, 60000, "a region was trimmed on both sides and another was freed or purged while two or more were in use") {
    Model m; int n = 1 + (int)g.size(30); bool both = false, multi = false;
    zpl_isize al = -7; REQUIRE((size_t)zpl_virtual_memory_page_size(&al) == PG && (size_t)zpl_virtual_memory_page_size(NULL) == PG, "the page size is not the system's"); REQUIRE(al > 0 && (size_t)al % PG == 0 && (al & (al - 1)) == 0, "alignment %td is reported", al);
    for (int i = 0; i < n; i++) {
        unsigned op = m.rs.empty() ? 0 : g.u(9);
        if (op <= 1) {
            size_t sz = gsize(g); u8 *hint = nullptr; bool free_there = false;
            switch (g.u(5)) {
                case 0: if (!m.freed.empty()) { auto &f = m.freed[g.u((unsigned)m.freed.size())]; hint = f.first; } break;
                case 1: if (!m.rs.empty()) { auto &r = m.rs[g.u((unsigned)m.rs.size())]; hint = r.p + PG * g.u((unsigned)pages(r.size)); } break;
                case 2: if (!m.rs.empty()) { auto &r = m.rs[g.u((unsigned)m.rs.size())]; hint = r.p + PG * pages(r.size); } break;
                default: break;
            }
            if (hint) free_there = count_mapped(hint, pages(sz)) == 0;
            g.note("alloc %zu%s", sz, !hint ? "" : free_there ? " at a free address" : " at a taken address");
            zpl_virtual_memory v = zpl_vm_alloc(hint, (zpl_isize)sz); u8 *p = (u8 *)v.data;
            REQUIRE(p, "%zu bytes were not given", sz); REQUIRE((size_t)v.size == sz, "a region of %zu bytes was asked for, one of %td given", sz, v.size); REQUIRE((uintptr_t)p % PG == 0, "the region is not page-aligned");
            if (free_there) REQUIRE(p == hint, "the region was asked for at a free address and lies elsewhere");
            for (auto &r : m.rs) REQUIRE(!m.overlaps(p, sz, r.p, r.size), "two regions share a page");
            REQUIRE(count_mapped(p, pages(sz)) == pages(sz), "a page of a new region is not mapped"); for (size_t k = 0; k < sz; k++) REQUIRE(p[k] == 0, "byte %zu of a new region is %d", k, p[k]);
            m.rs.push_back({p, sz, std::vector<u8>(sz)});
        } else {
            size_t at = g.u((unsigned)m.rs.size()); Region &r = m.rs[at]; zpl_virtual_memory v = zpl_vm(r.p, (zpl_isize)r.size); REQUIRE(v.data == r.p && (size_t)v.size == r.size, "zpl_vm describes another region"); size_t np = pages(r.size);
            switch (op) {
                case 2: case 3: { size_t a = g.u((unsigned)r.size), k = 1 + g.u((unsigned)std::min<size_t>(r.size - a, 9000)); u64 s = g.draw(1000); if (g.boolean()) a = r.size - k; for (size_t j = 0; j < k; j++) r.p[a + j] = r.m[a + j] = (u8)splitmix(s); g.note("write %zu bytes at %zu", k, a); } break;
                case 4: case 5: {
                    size_t lead = g.u((unsigned)np), keep = 1 + g.u((unsigned)(np - lead)); if (g.chance(1, 4)) lead = 0, keep = 1 + g.u((unsigned)np); bool tail = lead + keep < np; size_t kb = tail ? keep * PG : r.size - lead * PG; if (g.chance(1, 3)) kb -= g.u((unsigned)std::min(PG, kb));   // only whole pages are released
                    keep = pages(kb); tail = lead + keep < np;
                     g.note("trim to %zu..%zu of %zu pages", lead, lead + keep, np);
                    u8 *p = r.p; zpl_virtual_memory t = zpl_vm_trim(v, (zpl_isize)(lead * PG), (zpl_isize)kb); size_t c0 = count_mapped(p, lead), c1 = count_mapped(p + lead * PG, keep), c2 = count_mapped(p + (lead + keep) * PG, np - lead - keep);
                    REQUIRE(t.data == p + lead * PG && (size_t)t.size == kb, "trimmed to %zu bytes at %zu: got %td bytes at %td", kb, lead * PG, t.size, (u8 *)t.data - p);
                    REQUIRE(c1 == keep, "trimming to pages %zu to %zu of %zu left %zu of the %zu mapped", lead, lead + keep, np, c1, keep); REQUIRE(c0 == 0 && c2 == 0, "trimming to pages %zu to %zu of %zu left %zu pages before and %zu behind mapped", lead, lead + keep, np, c0, c2);
                    if (lead) m.freed.push_back({p, lead * PG}); if (tail) m.freed.push_back({p + (lead + keep) * PG, (np - lead - keep) * PG}); if (lead && tail) both = true;
                    r.p += lead * PG; r.m.erase(r.m.begin(), r.m.begin() + (long)(lead * PG)); r.m.resize(kb); r.size = kb;
                } break;
                case 6: {
                    bool whole = g.boolean(); size_t a = whole ? 0 : PG * g.u((unsigned)np), k = whole ? r.size : std::min(r.size - a, PG * (1 + g.u((unsigned)(np - a / PG)))); g.note("purge %zu bytes at %zu of %zu", k, a, r.size); zpl_b32 ok = zpl_vm_purge(zpl_vm(r.p + a, (zpl_isize)k)); REQUIRE(ok, "purging says it failed");
                    if (m.rs.size() > 1) multi = true; memset(r.m.data() + a, 0, std::min(r.size - a, pages(k) * PG)); for (size_t j = a; j < r.size && j < a + pages(k) * PG; j++) REQUIRE(r.p[j] == 0, "byte %zu of a purged region is %d", j, r.p[j]);
                } break;
                case 7: {
                    u8 *p = r.p; g.note("free %zu bytes", r.size); zpl_b32 ok = zpl_vm_free(v); size_t c = count_mapped(p, np); if (c == 0) { m.freed.push_back({p, np * PG}); if (m.rs.size() > 1) multi = true; m.rs.erase(m.rs.begin() + (long)at); } REQUIRE(ok, "freeing says it failed"); REQUIRE(c == 0, "%zu of %zu pages of a freed region are still mapped", c, np);
                } break;
                default: {   // what cannot succeed changes nothing and says so
                    switch (g.u(3)) {
                        case 0: g.note("free at an unaligned address"); REQUIRE(!zpl_vm_free(zpl_vm(r.p + 1 + g.u((unsigned)PG - 1), (zpl_isize)r.size)), "freeing at an unaligned address says it worked"); break;
                        case 1: g.note("purge at an unaligned address"); REQUIRE(!zpl_vm_purge(zpl_vm(r.p + 1 + g.u((unsigned)PG - 1), (zpl_isize)PG)), "purging at an unaligned address says it worked"); break;
                        default: { zpl_isize huge = (zpl_isize)1 << (48 + g.u(14)); g.note("alloc 2^48 bytes or more"); zpl_virtual_memory v2 = zpl_vm_alloc(g.boolean() ? NULL : r.p, huge); REQUIRE(v2.data == NULL, "2^48 bytes or more were asked for and %p given", v2.data); REQUIRE(v2.size == 0, "a refused region has %td bytes", v2.size); } break;
                    }
                } break;
            }
        }
        m.check("an operation");
    }
    while (!m.rs.empty()) { Region r = std::move(m.rs.back()); m.rs.pop_back(); zpl_b32 ok = zpl_vm_free(zpl_vm(r.p, (zpl_isize)r.size)); size_t c = count_mapped(r.p, pages(r.size)); if (c) munmap(r.p, r.size); REQUIRE(ok && c == 0, "a freed region of %zu bytes is still mapped", r.size); }
    if (both && multi) g.nontrivial();
}
// the classic use: reserve more than needed, keep the aligned part
PROPERTY(aligned, 6000, 30000, "the region had to be trimmed on both sides") {
    size_t al = PG << g.u(9), sz = PG * (1 + g.u(40)); zpl_virtual_memory v = zpl_vm_alloc(NULL, (zpl_isize)(sz + al)); REQUIRE(v.data, "%zu bytes were not given", sz + al); u8 *p = (u8 *)v.data; size_t lead = (al - (uintptr_t)p % al) % al, tail = al - lead; u64 s = g.draw(1000), s2 = s;
    g.note("keep %zu bytes aligned to %zu: lead %zu, tail %zu", sz, al, lead, tail);
    for (size_t i = 0; i < sz; i += 61) p[lead + i] = (u8)splitmix(s);
    zpl_virtual_memory t = zpl_vm_trim(v, (zpl_isize)lead, (zpl_isize)sz); size_t c0 = count_mapped(p, lead / PG), c1 = count_mapped(p + lead, sz / PG), c2 = count_mapped(p + lead + sz, tail / PG); bool same = c1 == sz / PG; if (same) for (size_t i = 0; i < sz; i += 61) if (p[lead + i] != (u8)splitmix(s2)) { same = false; break; }
    if (c1 == sz / PG) munmap(p + lead, sz);
    REQUIRE(t.data == p + lead && (size_t)t.size == sz, "the trimmed region is not the one asked for"); REQUIRE(c1 == sz / PG, "%zu of %zu kept pages are mapped", c1, sz / PG); REQUIRE(same, "the kept bytes changed"); REQUIRE(c0 == 0 && c2 == 0, "%zu pages before and %zu behind are still mapped", c0, c2);
    if (lead && tail) g.nontrivial();
}
