// F01: memory streams against an ideal byte vector with a cursor
#include "zh.hpp"
// counts the blocks it gave out, refuses absurd sizes and whatever goes beyond its budget
static long live_blocks; static int budget; static ZPL_ALLOCATOR_PROC(limited) {
    bool wants = type == ZPL_ALLOCATION_ALLOC || (type == ZPL_ALLOCATION_RESIZE && size > 0); if (wants && (size < 0 || size > 1 << 24 || budget-- <= 0)) return NULL;
    void *r = zpl_heap_allocator_proc(NULL, type, size, alignment, old_memory, old_size, flags); if (wants && r && (type == ZPL_ALLOCATION_ALLOC || !old_memory)) live_blocks++; if (old_memory && (type == ZPL_ALLOCATION_FREE || (type == ZPL_ALLOCATION_RESIZE && size == 0))) live_blocks--; return r; }
static int64_t far_offset(Gen &g) { switch (g.u(4)) { case 0: return INT64_MAX - (int64_t)g.u(100); case 1: return (int64_t)((1ull << (31 + g.u(32))) + g.u(9)) - 4; case 2: return (int64_t)(g.u64any() >> 1 | 1ull << 40); default: return (1ll << 62) + (int64_t)g.u(200) - 100; } }
PROPERTY(history, 600000, 8000000, "a read that meets the end, and a write that meets or passes it") {
    budget = 1 << 30; live_blocks = 0; zpl_allocator al = zpl_heap_allocator(); al.proc = limited; int kind = (int)g.u(5); // 0 new, 1 read-only, 2 in place, 3 clone, 4 both flags
    std::string init = kind ? g.bytes(g.size(60)) : ""; Exact caller(init); std::string m = init; zpl_file f; memset(&f, 0x5a, sizeof f);
    bool fixed = kind == 1 || kind == 2, can_write = kind != 1;
    if (kind == 0) REQUIRE(zpl_file_stream_new(&f, al), "stream_new"); else REQUIRE(zpl_file_stream_open(&f, al, caller.p, init.size(), (zpl_file_stream_flags)(kind == 1 ? 0 : kind == 2 ? ZPL_FILE_STREAM_WRITABLE : kind == 3 ? ZPL_FILE_STREAM_CLONE_WRITABLE : ZPL_FILE_STREAM_CLONE_WRITABLE | ZPL_FILE_STREAM_WRITABLE)), "stream_open");
    static const char *kn[] = {"new", "read-only", "in-place", "clone", "both"}; g.note("%s stream over %s", kn[kind], esc(init).c_str());
    int64_t cur = 0; bool rd_end = false, wr_end = false; auto clampc = [&](__int128 v) -> int64_t { return (int64_t)(v < 0 ? 0 : v > (__int128)m.size() ? (__int128)m.size() : v); };
    auto model_write = [&](int64_t off, const std::string &d) -> size_t { size_t n = d.size(); if (!n) return 0; if (fixed) { n = off < (int64_t)m.size() ? std::min<size_t>(n, m.size() - off) : 0; if (n) m.replace(off, n, d, 0, n); return n; } if (off + n > m.size()) m.resize(off + n, 0); m.replace(off, n, d); return n; };
    size_t ops = 1 + g.u(25);
    for (size_t i = 0; i < ops; i++) {
        switch (g.u(9)) {
        case 0: { size_t n = g.size(80); Exact b(n, 0x77); bool r = zpl_file_read(&f, b.p, n); size_t k = std::min<size_t>(n, m.size() - cur); g.note("read %zu at %ld", n, (long)cur); if (k < n) rd_end = true; REQUIRE(r, "read of %zu failed", n); REQUIRE(!memcmp(b.p, m.data() + cur, k), "read gives %s, expected %s", esc(b.p, k).c_str(), esc(m.substr(cur, k)).c_str()); for (size_t j = k; j < n; j++) REQUIRE(b.p[j] == 0x77, "read wrote past what it read"); cur += k; break; }
        case 1: { size_t n = g.size(80), off = g.u(12) ? g.u(m.size() + 5) : (size_t)far_offset(g); Exact b(n, 0x77); zpl_isize got = -1; bool r = zpl_file_read_at_check(&f, b.p, n, off, &got); size_t k = off < m.size() ? std::min<size_t>(n, m.size() - off) : 0; g.note("read %zu at offset %zu", n, off); if (k < n) rd_end = true; REQUIRE(r && got == (zpl_isize)k, "read_at(%zu, %zu) of %zu bytes reports %ld", n, off, m.size(), (long)got); REQUIRE(!memcmp(b.p, m.data() + std::min(off, m.size()), k), "read_at gives other bytes"); for (size_t j = k; j < n; j++) REQUIRE(b.p[j] == 0x77, "read_at wrote past what it read"); break; }
        case 2: case 3: { std::string d = g.bytes(g.size(80)); Exact e(d); bool r = zpl_file_write(&f, e.p, d.size()); g.note("write %zu at %ld", d.size(), (long)cur); if (!can_write) { REQUIRE(!r, "write to a read-only stream succeeded"); break; } REQUIRE(r, "write failed"); if (cur + d.size() >= m.size()) wr_end = true; cur += model_write(cur, d); break; }
        case 4: { std::string d = g.bytes(g.size(80)); Exact e(d); bool far = g.u(12) == 11; size_t off = far ? (size_t)far_offset(g) : g.u(m.size() + 20); zpl_isize put = -1; bool r = zpl_file_write_at_check(&f, e.p, d.size(), off, &put); g.note("write %zu at offset %zu", d.size(), off); if (!can_write) { REQUIRE(!r, "write_at to a read-only stream succeeded"); break; } if (far && !fixed && !d.empty()) { REQUIRE(!r, "writing at offset %zu, which no memory could hold, succeeded", off); break; } if (far && !fixed) break; if (off + d.size() >= m.size()) wr_end = true; size_t k = model_write(off, d); REQUIRE(r && put == (zpl_isize)k, "write_at(%zu, %zu) reports %ld, expected %zu", d.size(), off, (long)put, k); break; }
        case 5: { int64_t off = g.u(9) ? g.range(-5, (int64_t)m.size() + 5) : g.boolean() ? far_offset(g) : -far_offset(g) - (int64_t)g.u(2); g.note("seek %ld", (long)off); int64_t r = zpl_file_seek(&f, off); cur = clampc(off); REQUIRE(r == cur, "seek(%ld) of %zu bytes gives %ld", (long)off, m.size(), (long)r); break; }
        case 6: { if (g.boolean()) { int64_t off = g.u(9) ? g.range(-(int64_t)m.size() - 5, 5) : g.boolean() ? far_offset(g) : -far_offset(g) - (int64_t)g.u(2), r = -7; bool tell = g.boolean(); g.note("seek %ld from the end", (long)off); REQUIRE(f.ops.seek(f.fd, off, ZPL_SEEK_WHENCE_END, tell ? (zpl_i64 *)&r : NULL), "seek from the end failed"); cur = clampc((__int128)m.size() + off); REQUIRE(!tell || r == cur, "seek(%ld) from the end of %zu bytes gives %ld", (long)off, m.size(), (long)r); break; }
            int64_t r = zpl_file_seek_to_end(&f); cur = m.size(); g.note("seek to end"); REQUIRE(r == cur, "seek_to_end gives %ld, expected %ld", (long)r, (long)cur); break; }
        case 7: { int64_t d = g.u(9) ? g.range(-(int64_t)m.size() - 5, (int64_t)m.size() + 5) : g.boolean() ? far_offset(g) : -far_offset(g) - (int64_t)g.u(2); int64_t r = zpl_file_skip(&f, d); cur = clampc((__int128)cur + d); g.note("skip %ld", (long)d); REQUIRE(r == cur, "skip(%ld) gives %ld, expected %ld", (long)d, (long)r, (long)cur); break; }
        default: { zpl_u8 b[4] = {1, 2, 3, 4}; zpl_isize k = -7; int64_t off = -1 - (int64_t)g.u(9); g.note("accesses at %ld", (long)off); REQUIRE(!zpl_file_read_at_check(&f, b, 4, off, &k), "reading at a negative offset succeeded"); REQUIRE(!zpl_file_write_at_check(&f, b, 4, off, &k), "writing at a negative offset succeeded"); } }
        REQUIRE(zpl_file_tell(&f) == cur, "position %ld, expected %ld", (long)zpl_file_tell(&f), (long)cur); REQUIRE(zpl_file_size(&f) == (zpl_i64)m.size(), "size %ld, expected %zu", (long)zpl_file_size(&f), m.size()); REQUIRE(zpl_file_tell(&f) == cur, "asking for the size moved the position");
        zpl_isize n = -1; zpl_u8 *b = zpl_file_stream_buf(&f, &n); REQUIRE(n == (zpl_isize)m.size() && !memcmp(b, m.data(), m.size()), "contents %s, expected %s", esc(b, n).c_str(), esc(m).c_str());
        if (fixed) REQUIRE(b == caller.p, "the stream left the caller's buffer"); if (kind != 2) REQUIRE(!memcmp(caller.p, init.data(), init.size()), "the caller's buffer was changed");
    }
    if (rd_end && (wr_end || kind == 1)) g.nontrivial(); REQUIRE(zpl_file_close(&f) == ZPL_FILE_ERROR_NONE, "close"); REQUIRE(live_blocks == 0, "%ld blocks are left after closing the stream", live_blocks);
}
// large contents and a refused growth
PROPERTY(refused_growth, 300000, 4000000, "the allocator refuses at least one growth of an open stream") {
    zpl_allocator al = zpl_heap_allocator(); al.proc = limited; live_blocks = 0; budget = (int)g.u(5); zpl_file f; std::string init = g.bytes(g.size(20)); bool fresh = g.boolean(); Exact caller(init); g.note("%s stream, %d allocations granted", fresh ? "new" : "clone", budget); int granted = budget;
    if (!(fresh ? zpl_file_stream_new(&f, al) : zpl_file_stream_open(&f, al, caller.p, init.size(), ZPL_FILE_STREAM_CLONE_WRITABLE))) { REQUIRE(granted < 2, "opening failed although memory was granted"); REQUIRE(live_blocks == 0, "a refused opening leaves %ld blocks", live_blocks); return; }
    std::string m = fresh ? "" : init;
    for (size_t i = 0, n = 1 + g.u(8); i < n; i++) { std::string d = g.bytes(g.size(300)); size_t off = g.u(m.size() + 8); Exact e(d); zpl_isize put = 0; bool r = zpl_file_write_at_check(&f, e.p, d.size(), off, &put); g.note("write %zu at %zu: %d", d.size(), off, r); if (r) { if (!d.empty()) { if (off + d.size() > m.size()) m.resize(off + d.size(), 0); m.replace(off, d.size(), d); } } else { REQUIRE(budget < 0, "write failed although memory was granted"); g.nontrivial(); }
        zpl_isize k = -1; zpl_u8 *b = zpl_file_stream_buf(&f, &k); REQUIRE(k == (zpl_isize)m.size() && !memcmp(b, m.data(), m.size()), "after a %s write: contents %s, expected %s", r ? "successful" : "refused", esc(b, k).c_str(), esc(m).c_str()); }
    zpl_file_close(&f); REQUIRE(live_blocks == 0, "%ld blocks are left after closing the stream", live_blocks);
}
