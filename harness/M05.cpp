// M05: whatever request an allocator refuses, the operation says so, breaks nothing and leaks nothing
// @defines -include heap_hook.h
#include "zh.hpp"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#undef aligned_alloc
// the general-purpose heap takes its memory here: refusals can be switched on for it too
struct Sys { long asked = 0, refused = 0; long from = -1, to = -1; bool on = false; bool no() { if (!on) return false; long k = asked++; if (k >= from && k < to) { refused++; return true; } return false; } };
static Sys heap_sys, own_sys; static long own_live;
extern "C" void *pbt_aligned_alloc(size_t a, size_t n) { if (heap_sys.no()) return NULL; return aligned_alloc(a, n); }
static ZPL_ALLOCATOR_PROC(own_proc) {
    bool wants = type == ZPL_ALLOCATION_ALLOC || (type == ZPL_ALLOCATION_RESIZE && size > 0); if (wants && own_sys.no()) return NULL;
    bool h = heap_sys.on; heap_sys.on = false; void *r = zpl_heap_allocator_proc(NULL, type, size, alignment, old_memory, old_size, flags); heap_sys.on = h;
    if (wants && r && (type == ZPL_ALLOCATION_ALLOC || !old_memory)) own_live++; if (old_memory && (type == ZPL_ALLOCATION_FREE || (type == ZPL_ALLOCATION_RESIZE && size == 0))) own_live--; return r;
}
static zpl_allocator own() { zpl_allocator a; a.proc = own_proc; a.data = NULL; return a; }
static long fds() { long n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
// refusals: the k-th request, or that one and all after it, or a window of them
static void arm(Gen &g, Sys &s, size_t span) { s = Sys(); s.on = true; int k = (int)g.u(5); if (k == 0) return; s.from = (long)g.u(span); s.to = k < 3 ? s.from + 1 : k == 3 ? s.from + 1 + (long)g.u(3) : 1l << 60; }
static std::string plan(const Sys &s) { return s.from < 0 ? "none" : s.to > 1l << 50 ? pbt::esc("requests from " + std::to_string(s.from) + " on") : "requests " + std::to_string(s.from) + " to " + std::to_string(s.to - 1); }
#define BEGIN(span) arm(g, own_sys, span); own_live = 0; g.note("refusing %s", plan(own_sys).c_str())
#define END(what) do { own_sys.on = false; REQUIRE(own_live == 0, "%ld blocks are left after %s", own_live, what); if (own_sys.refused) g.nontrivial(); } while (0)
static std::string text(Gen &g, size_t n) { return g.str(n, "ab \n\r=\",.x1"); }

PROPERTY(copies, 200000, 3000000, "a request was refused") {
    int k = (int)g.u(7); std::string s = k == 6 ? g.bytes(1 + g.size(40)) : text(g, 60); g.note("kind %d, text %s", k, esc(s).c_str()); BEGIN(4); Exact e(s, true), raw(s);
    switch (k) {
        case 0: { char *p = zpl_strdup(own(), (char *)e.p, (zpl_isize)s.size()); REQUIRE(!!p == !own_sys.refused, "strdup"); if (p) { REQUIRE(s == p, "strdup gives %s", esc(p).c_str()); zpl_free(own(), p); } break; }
        case 1: { char *p = zpl_alloc_str(own(), (char *)e.p); REQUIRE(!!p == !own_sys.refused, "alloc_str"); if (p) { REQUIRE(s == p, "alloc_str gives %s", esc(p).c_str()); zpl_free(own(), p); } break; }
        case 2: { char *p = zpl_alloc_str_len(own(), (char *)raw.p, (zpl_isize)s.size()); REQUIRE(!!p == !own_sys.refused, "alloc_str_len"); if (p) { REQUIRE(s == p, "alloc_str_len gives %s", esc(p).c_str()); zpl_free(own(), p); } break; }
        case 3: { void *p = g.boolean() ? zpl_alloc_copy(own(), raw.p, (zpl_isize)s.size()) : zpl_alloc_copy_align(own(), raw.p, (zpl_isize)s.size(), 64); REQUIRE(!!p == !own_sys.refused, "alloc_copy"); if (p) { REQUIRE(!memcmp(p, s.data(), s.size()), "alloc_copy"); zpl_free(own(), p); } break; }
        case 4: { char *p = (char *)1; zpl_isize n = zpl_asprintf(own(), &p, "<%s|%d>", (char *)e.p, 7); if (own_sys.refused) REQUIRE(n == -1 && !p, "a refused asprintf gives length %ld and text %p", (long)n, (void *)p); else { REQUIRE(p && "<" + s + "|7>" == p && n == (zpl_isize)s.size() + 5, "asprintf"); zpl_free(own(), p); } break; }
        case 5: { char **l = zpl_str_split_lines(own(), (char *)e.p, false); REQUIRE(!!l == !own_sys.refused, "split_lines %s although %ld of %ld requests were refused", l ? "succeeds" : "fails", own_sys.refused, own_sys.asked); if (l) zpl_array_free(l); break; }
        default: { zpl_u8 *p = zpl_base64_encode(own(), raw.p, (zpl_isize)s.size()); REQUIRE(!!p == !own_sys.refused, "base64_encode"); if (p) { long r = own_sys.refused; size_t n = strlen((char *)p); zpl_u8 *q = zpl_base64_decode(own(), p, (zpl_isize)n); REQUIRE(!!q == (own_sys.refused == r), "base64_decode"); if (q) { REQUIRE(!memcmp(q, s.data(), s.size()), "base64"); zpl_free(own(), q); } zpl_free(own(), p); } }
    }
    END("the copy was freed");
}
PROPERTY(many_lines, 30000, 400000, "a request was refused") {
    std::string s; size_t n = g.size(120); for (size_t i = 0; i < n; i++) s += std::to_string(i) + "\n"; BEGIN(6); Exact e(s, true); g.note("%zu lines", n);
    char **l = zpl_str_split_lines(own(), (char *)e.p, g.boolean()); REQUIRE(!!l == !own_sys.refused, "splitting %zu lines %s although %ld of %ld requests were refused", n, l ? "succeeds" : "fails", own_sys.refused, own_sys.asked);
    if (l) { REQUIRE(zpl_array_count(l) == (zpl_isize)n, "%ld lines, expected %zu", (long)zpl_array_count(l), n); for (size_t i = 0; i < n; i++) REQUIRE(std::to_string(i) == l[i], "line %zu is %s", i, l[i]); zpl_array_free(l); } END("the lines were freed");
}
// arrays: every operation that can be refused leaves the sequence as it was
PROPERTY(arrays, 200000, 3000000, "a request was refused after the array existed") {
    BEGIN(12); std::vector<u64> m; zpl_array(u64) a = NULL; bool ok = g.boolean() ? zpl_array_init(a, own()) : zpl_array_init_reserve(a, own(), (zpl_isize)g.u(9)); REQUIRE(ok == !own_sys.refused, "init"); if (!ok) { REQUIRE(!a, "a refused init leaves a pointer"); END("a refused init"); return; }
    u64 items[12]; for (auto &x : items) x = g.u(1000); size_t n = g.size(20);
    for (size_t i = 0; i < n; i++) { long r = own_sys.refused; int k = (int)g.u(8); bool done; size_t c = g.u(12), at = g.u(m.size() + 1); u64 *b = NULL;
        switch (k) {
            case 0: done = zpl_array_append(a, items[c]); if (done) m.push_back(items[c]); break;
            case 1: done = zpl_array_appendv(a, items, (zpl_isize)c); if (done) m.insert(m.end(), items, items + c); break;
            case 2: done = zpl_array_appendv_at(a, items, (zpl_isize)c, (zpl_isize)at); if (done) m.insert(m.begin() + at, items, items + c); break;
            case 3: { size_t want = m.size() + c; done = zpl_array_resize(a, (zpl_isize)want); if (done) { for (size_t j = m.size(); j < want; j++) a[j] = j; for (size_t j = m.size(); j < want; j++) m.push_back(j); } break; }
            case 4: done = zpl_array_reserve(a, (zpl_isize)g.u(40)); break;
            case 5: { size_t cap = g.u(m.size() + 10); done = zpl_array_set_capacity(a, (zpl_isize)cap); if (done && cap < m.size()) m.resize(cap); break; }
            case 6: done = zpl_array_grow(a, (zpl_isize)g.u(40)); break;
            default: done = zpl_array_copy_init(b, a); if (done) { REQUIRE(zpl_array_count(b) == (zpl_isize)m.size() && !memcmp(b, m.data(), m.size() * 8), "the copy differs"); zpl_array_free(b); } else REQUIRE(!b, "a refused copy leaves a pointer"); }
        g.note("operation %d (%zu): %d", k, c, done); REQUIRE(done == (own_sys.refused == r), "operation %d reports %d although %ld requests were refused", k, done, own_sys.refused - r);
        REQUIRE(zpl_array_count(a) == (zpl_isize)m.size() && zpl_array_capacity(a) >= zpl_array_count(a), "count %ld, expected %zu, after operation %d reported %d", (long)zpl_array_count(a), m.size(), k, done); REQUIRE(!memcmp(a, m.data(), m.size() * 8), "contents changed by operation %d, which reported %d", k, done); }
    zpl_array_free(a); END("the array was freed");
}
typedef struct P { u64 x; char c; } P; ZPL_RING(static, rg_, P) ZPL_TABLE(static, tb, tb_, P)
PROPERTY(containers, 200000, 3000000, "a request was refused") {
    int k = (int)g.u(3);
    if (k == 0) { BEGIN(3); size_t cap = g.size(20); u64 *b = (u64 *)&k, *c = (u64 *)&k; zpl_buffer_init(b, own(), (zpl_isize)cap); REQUIRE(!!b == !own_sys.refused, "buffer_init: a refused buffer is no null pointer"); if (b) { for (size_t i = 0; i < cap; i++) zpl_buffer_append(b, i); long r = own_sys.refused; zpl_buffer_copy_init(c, b); REQUIRE(!!c == (own_sys.refused == r), "buffer_copy_init: a refused copy is no null pointer"); for (size_t i = 0; i < cap; i++) { REQUIRE(b[i] == i, "the original changed"); if (c) REQUIRE(c[i] == i, "the copy differs"); } if (c) zpl_buffer_free(c); zpl_buffer_free(b); } END("the buffers were freed"); }
    else if (k == 1) { BEGIN(4); size_t cap = g.size(30), n = g.size(40); rg_P q; memset(&q, 0x5a, sizeof q); rg_init(&q, own(), (zpl_isize)cap); bool ok = !own_sys.refused; g.note("ring of %zu, %zu items", cap, n); REQUIRE(!!q.buf == ok, "ring_init: a refused ring has a buffer"); REQUIRE(rg_empty(&q) && !rg_get(&q), "a new ring is not empty"); REQUIRE(ok || rg_full(&q), "a ring without memory has room");
        if (ok) { std::vector<u64> m; for (size_t i = 0; i < n; i++) { P p = {i, 'c'}; if (rg_full(&q)) break; rg_append(&q, p); m.push_back(i); } for (int t = 0; t < 3; t++) { long r = own_sys.refused; size_t want = g.u(cap + 3); P *v = rg_get_array(&q, want, own()); bool no = own_sys.refused > r; size_t got = v ? (size_t)zpl_array_count(v) : 0; if (!no) REQUIRE(v && got == std::min(want, m.size()), "%zu of %zu items fetched from %zu", got, want, m.size()); REQUIRE(got <= std::min(want, m.size()), "more items than asked for"); for (size_t i = 0; i < got; i++) REQUIRE(v[i].x == m[i], "item %zu is %llu, expected %llu", i, (unsigned long long)v[i].x, (unsigned long long)m[i]); m.erase(m.begin(), m.begin() + got); if (v) zpl_array_free(v); } for (u64 x : m) { P *p = rg_get(&q); REQUIRE(p && p->x == x, "an item was lost when fetching an array was refused"); } REQUIRE(rg_empty(&q), "items are left"); }
        rg_free(&q); END("the ring was freed"); }
    else { BEGIN(14); tb h; memset(&h, 0x5a, sizeof h); tb_init(&h, own()); if (own_sys.refused) { REQUIRE(!h.hashes || !h.entries, "a refused table has all its storage"); g.note("init refused"); tb_destroy(&h); END("a refused table was destroyed"); return; }
        std::map<u64, u64> m; size_t n = g.size(60); for (size_t i = 0; i < n; i++) { u64 key = g.u(4) ? g.u(40) : g.u64any(); long r = own_sys.refused; int op = (int)g.u(10); bool had = m.count(key); P p = {i, 'v'};
            if (op < 7) { tb_set(&h, key, p); P *q = tb_get(&h, key); g.note("set %llu", (unsigned long long)key); if (own_sys.refused == r) REQUIRE(q && q->x == i, "set(%llu) did nothing", (unsigned long long)key); if (q && q->x == i) m[key] = i; else REQUIRE(!!q == had, "a refused set(%llu) %s the key", (unsigned long long)key, q ? "half-added" : "dropped"); }
            else if (op == 7) { tb_remove(&h, key); m.erase(key); g.note("remove %llu", (unsigned long long)key); } else if (op == 8) { zpl_isize c = (zpl_isize)g.size(50); g.note("rehash %ld", (long)c); tb_rehash(&h, c); } else { g.note("grow"); tb_grow(&h); }
            REQUIRE(zpl_array_count(h.entries) == (zpl_isize)m.size(), "%ld entries, expected %zu%s", (long)zpl_array_count(h.entries), m.size(), own_sys.refused > r ? " (after a refusal)" : ""); for (auto &kv : m) { P *q = tb_get(&h, kv.first); REQUIRE(q && q->x == kv.second && q->c == 'v', "key %llu is lost or wrong%s", (unsigned long long)kv.first, own_sys.refused > r ? " after a refusal" : ""); } }
        tb_destroy(&h); END("the table was destroyed"); }
}
PROPERTY(allocators, 100000, 1000000, "a request was refused") {
    int k = (int)g.u(5); BEGIN(2); size_t n = 64 + g.size(2000); g.note("kind %d of %zu bytes", k, n);
    if (k == 0) { zpl_arena a; zpl_arena_init_from_allocator(&a, own(), (zpl_isize)n); void *p = zpl_alloc(zpl_arena_allocator(&a), 16); REQUIRE(!!p == !own_sys.refused, "arena"); if (p) memset(p, 1, 16); REQUIRE(zpl_arena_size_remaining(&a, 8) <= (own_sys.refused ? 0 : (zpl_isize)n), "remaining size of an arena without memory"); zpl_arena_free(&a); }
    else if (k == 1) { zpl_pool p; size_t bs = 8 + g.size(100), nb = 1 + g.size(20); zpl_pool_init(&p, own(), (zpl_isize)nb, (zpl_isize)bs); if (own_sys.refused) REQUIRE(!p.physical_start && !p.free_list, "a refused pool has blocks"); else for (size_t i = 0; i < nb; i++) { void *b = zpl_alloc(zpl_pool_allocator(&p), (zpl_isize)bs); REQUIRE(b, "a pool of %zu blocks serves %zu", nb, i); memset(b, 7, bs); } zpl_free_all(zpl_pool_allocator(&p)); zpl_pool_free(&p); }
    else if (k == 2) { zpl_stack_memory s; zpl_stack_memory_init(&s, own(), (zpl_isize)n); long r = own_sys.refused; void *p = zpl_alloc(zpl_stack_allocator(&s), 16); if (p) memset(p, 1, 16); REQUIRE(p ? own_sys.refused == r : own_sys.refused > 0, "a stack gives %p although %ld requests were refused", p, own_sys.refused - r); REQUIRE(zpl_stack_memory_is_in_use(&s, p) == !!p || !p, "in use"); if (p) { zpl_free(zpl_stack_allocator(&s), p); } zpl_free_all(zpl_stack_allocator(&s)); zpl_stack_memory_free(&s); }
    else if (k == 3) { zpl_arena a, b; zpl_arena_init_from_allocator(&a, own(), (zpl_isize)n); zpl_arena_init_sub(&b, &a, (zpl_isize)g.u(2 * n)); void *p = zpl_alloc(zpl_arena_allocator(&b), 8); if (p) memset(p, 1, 8); REQUIRE(!p || !own_sys.refused, "a sub-arena of nothing"); zpl_arena_free(&b); zpl_arena_free(&a); }
    else { zpl_string s = zpl_string_make(own(), "abc"), t = NULL; REQUIRE(!!s == !own_sys.refused, "string_make"); if (s) { long r = own_sys.refused; t = zpl_string_duplicate(own(), s); REQUIRE(!!t == (own_sys.refused == r), "string_duplicate"); REQUIRE(!strcmp(s, "abc"), "the original changed"); } zpl_string_free(s); zpl_string_free(t); }
    END("the allocator was freed");
}
PROPERTY(expressions, 150000, 2000000, "a request was refused") {
    std::string p; size_t n = 1 + g.size(12); for (size_t i = 0; i < n; i++) { switch (g.u(5)) { case 0: p += std::string(1 + g.size(300), 'a'); break; case 1: p += "(b)"; break; case 2: p += "[c-e]"; break; case 3: p += "(f|g)"; break; default: p += "\\d"; } } g.note("expression of %zu characters", p.size());
    BEGIN(5); Exact e(p); zpl_re re; zpl_regex_error err = zpl_re_compile(&re, own(), (char *)e.p, (zpl_isize)p.size()); if (own_sys.refused) REQUIRE(err != ZPL_RE_ERROR_NONE, "compiling succeeds although memory was refused"); 
    if (!err) { long r = heap_sys.refused; zpl_array(zpl_re_capture) caps = NULL; std::string t = std::string(g.size(60), 'a') + "bcf1"; Exact te(t); long o = own_sys.refused; if (zpl_array_init(caps, own())) { arm(g, heap_sys, 2); zpl_isize mc = zpl_re_capture_count(&re) + 1; bool m = zpl_re_match_all(&re, (char *)te.p, (zpl_isize)t.size(), mc, &caps); heap_sys.on = false; if (heap_sys.refused || own_sys.refused > o) REQUIRE(!m, "matching all succeeds although memory was refused"); zpl_array_free(caps); } (void)r; zpl_re_destroy(&re); }
    if (heap_sys.refused) g.nontrivial(); heap_sys = Sys(); END("the expression was destroyed");
}
PROPERTY(options, 60000, 800000, "a request was refused") {
    BEGIN(16); zpl_opts o; memset(&o, 0x5a, sizeof o); zpl_opts_init(&o, own(), "app"); bool ok = !own_sys.refused; if (!ok) { REQUIRE(!o.entries || !o.positioned || !o.errors, "refused options look initialised"); g.note("init refused"); zpl_opts_free(&o); END("refused options were freed"); return; }
    size_t n = 1 + g.size(30); std::vector<std::string> names; std::vector<bool> added; for (size_t i = 0; i < n; i++) names.push_back("opt" + std::to_string(i));
    for (size_t i = 0; i < n; i++) { long r = own_sys.refused; zpl_opts_add(&o, NULL, names[i].c_str(), "", ZPL_OPTS_STRING); added.push_back(own_sys.refused == r); }
    std::vector<std::string> args = {"app"}; std::map<std::string, std::string> want; std::vector<std::pair<size_t, std::string>> given; for (size_t i = 0, c = g.size(10); i < c; i++) { size_t k = g.u(n); std::string v = std::string(g.size(30), 'v') + std::to_string(i); args.push_back("--" + names[k] + "=" + v); given.push_back({k, v}); }
    std::vector<char *> argv; for (auto &s : args) argv.push_back((char *)s.c_str()); argv.push_back(NULL); long r = own_sys.refused; bool good = zpl_opts_compile(&o, (int)args.size(), argv.data()); bool unknown = false; for (auto &kv : given) unknown |= !added[kv.first];
    if (own_sys.refused > r || unknown) REQUIRE(!good, "compiling succeeds although %s", unknown ? "an option is unknown" : "memory was refused"); else REQUIRE(good, "compiling failed");
    std::vector<std::string> last(n); std::vector<bool> met(n); for (auto &kv : given) { last[kv.first] = kv.second; met[kv.first] = true; }
    for (size_t i = 0; i < n; i++) { const char *v = zpl_opts_string(&o, names[i].c_str(), "fallback"); REQUIRE(v, "option %zu has no value and no fallback", i); if (own_sys.refused == r) REQUIRE(std::string(v) == (met[i] && added[i] ? last[i] : "fallback"), "option %zu is %s", i, v); else if (strcmp(v, "fallback")) { bool any = false; for (auto &kv : given) any |= kv.first == i && kv.second == v; REQUIRE(any, "option %zu is %s, which was never given", i, esc(v).c_str()); } }
    zpl_opts_free(&o); END("the options were freed");
}
// files: contents, lines, listings, archives, handles
static void put(const std::string &p, const std::string &s) { FILE *f = fopen(p.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
PROPERTY(files, 12000, 150000, "a request was refused") {
    std::string dir = scratch() + "/d"; (void)!system(("rm -rf " + dir).c_str()); mkdir(dir.c_str(), 0700); size_t nf = g.size(5); for (size_t i = 0; i < nf; i++) { std::string sub = dir; if (g.u(3) == 0) { sub += "/s" + std::to_string(i); mkdir(sub.c_str(), 0700); } put(sub + "/f" + std::to_string(i), g.bytes(g.size(100))); }
    std::string file = dir + "/main", content = text(g, 80) + "end"; put(file, content); int k = (int)g.u(7); long before = fds(); g.note("kind %d, %zu files", k, nf); BEGIN(k < 2 ? 3 : 12); heap_sys = Sys(); if (k >= 4) { own_sys = Sys(); arm(g, heap_sys, 8); g.note("heap refusing %s", plan(heap_sys).c_str()); }
    switch (k) {
        case 0: { bool z = g.boolean(); zpl_file_contents c = zpl_file_read_contents(own(), z, file.c_str()); if (own_sys.refused) REQUIRE(!c.data && c.size == 0, "refused contents have size %ld", (long)c.size); else { REQUIRE(c.size == (zpl_isize)content.size() && !memcmp(c.data, content.data(), content.size()), "contents"); zpl_file_free_contents(&c); } break; }
        case 1: { char **l = (char **)1, *c = zpl_file_read_lines(own(), &l, file.c_str(), g.boolean()); if (own_sys.refused) REQUIRE(!c && !l, "refused lines: text %p, lines %p", (void *)c, (void *)l); else { REQUIRE(c && l, "read_lines"); zpl_array_free(l); zpl_free(own(), c); } break; }
        case 2: { zpl_string s = zpl_path_dirlist(own(), dir.c_str(), true); REQUIRE(!!s == !own_sys.refused, "a listing %s although %ld requests were refused", s ? "succeeds" : "fails", own_sys.refused); if (s) { REQUIRE(strstr(s, "/main"), "the listing lacks a file"); zpl_string_free(s); } char *p = zpl_path_get_full_name(own(), file.c_str()); if (p) zpl_free(own(), p); break; }
        case 3: { zpl_file f; bool sys = own_sys.on; own_sys.on = false; REQUIRE(zpl_file_stream_new(&f, own()), "stream"); own_sys.on = sys; zpl_isize e = zpl_tar_pack_dir(&f, dir.c_str(), own()); if (own_sys.refused) REQUIRE(e < 0, "packing a directory succeeds although memory was refused"); else REQUIRE(e == 0, "packing fails: %ld", (long)e); zpl_file_close(&f); break; }
        case 4: { zpl_dir_info d; memset(&d, 0x5a, sizeof d); zpl_dirinfo_init(&d, dir.c_str()); if (heap_sys.refused) REQUIRE(!d.entries && !d.filenames && !d.buf, "a refused directory listing has entries"); else REQUIRE(d.entries && zpl_array_count(d.entries) >= 1, "no entries"); if (d.entries) for (zpl_isize i = 0; i < zpl_array_count(d.entries); i++) { long r = heap_sys.refused; zpl_dirinfo_step(d.entries + i); zpl_dir_info *s = d.entries[i].dir_info; if (heap_sys.refused == r) REQUIRE(s && s->entries, "no sub-listing"); else REQUIRE(!s || !s->entries, "a refused sub-listing has entries"); } heap_sys.on = false; zpl_dirinfo_free(&d); break; }
        case 5: { zpl_file f; zpl_file_error e = zpl_file_open(&f, file.c_str()); REQUIRE((e == ZPL_FILE_ERROR_NONE) == !heap_sys.refused, "opening reports %d although %ld requests were refused", (int)e, heap_sys.refused); if (!e) { long r = heap_sys.refused; zpl_file_dirinfo_refresh(&f); if (heap_sys.refused == r) REQUIRE(f.dir && f.dir->dir_info && f.dir->dir_info->entries, "no directory information"); REQUIRE(zpl_file_size(&f) == (zpl_i64)content.size(), "size"); zpl_file_close(&f); } break; }
        default: { setenv("PBT_M05", content.c_str(), 1); const char *v = zpl_get_env("PBT_M05"); zpl_string s = zpl_get_env_str("PBT_M05"); long r = heap_sys.refused; REQUIRE((!!v + !!s) == 2 - r, "%ld requests were refused, but %d of 2 values are there", r, !!v + !!s); if (v) { REQUIRE(content == v, "value"); zpl_mfree((void *)v); } if (s) { REQUIRE(content == s, "value"); zpl_string_free(s); } break; }
    }
    if (heap_sys.refused) g.nontrivial(); heap_sys = Sys(); END("everything was freed"); long after = fds(); REQUIRE(before == after, "%ld descriptors are open, %ld before", after, before);
}
static int ran; static void job(void *) { __atomic_add_fetch(&ran, 1, __ATOMIC_SEQ_CST); }
PROPERTY(jobs, 3000, 40000, "a request was refused", 1) {
    BEGIN(8); zpl_jobs_system s; size_t nt = 1 + g.u(3), nj = g.u(10); ran = 0; zpl_jobs_init_with_limit(&s, own(), (zpl_u32)nt, 20); bool ok = !own_sys.refused; g.note("%zu threads, %zu jobs", nt, nj); size_t accepted = 0; for (size_t i = 0; i < nj; i++) { bool a = zpl_jobs_enqueue_with_priority(&s, job, NULL, (zpl_jobs_priority)g.u(ZPL_JOBS_MAX_PRIORITIES)); if (ok) REQUIRE(a, "a job is refused although there is room"); accepted += a; }
    if (ok) while (!zpl_jobs_done(&s)) zpl_jobs_process(&s); else { REQUIRE(!accepted || s.max_threads, "a system without workers accepts jobs"); for (int i = 0; i < 100000 && !zpl_jobs_done(&s) && s.max_threads; i++) { zpl_jobs_process(&s); zpl_yield(); } }
    zpl_jobs_free(&s); REQUIRE((size_t)ran <= accepted && (!ok || (size_t)ran == accepted), "%d jobs ran, %zu were accepted", ran, accepted); END("the job system was freed");
}
// documents written to a string
PROPERTY(documents, 60000, 800000, "a request was refused") {
    int k = (int)g.u(3); size_t n = 1 + g.size(40); zpl_adt_node r; bool refused_build = false; (void)refused_build; own_live = 0; own_sys = Sys(); std::string src;
    if (k == 0) { src = "{\"a\": ["; for (size_t i = 0; i < n; i++) src += (i ? "," : "") + std::to_string(i * 37); src += "], \"b\": \"text\"}"; } else if (k == 1) { src = "h1,h2\n"; for (size_t i = 0; i < n; i++) src += std::to_string(i) + ",x\n"; } else { src = "http://host/p?"; for (size_t i = 0; i < n; i++) src += (i ? "&" : "") + std::string("k") + std::to_string(i) + "=v%20w"; }
    std::string t = src; Exact e(t, true); zpl_u8 err = k == 0 ? zpl_json_parse(&r, (char *)e.p, own()) : k == 1 ? (zpl_u8)zpl_csv_parse(&r, (char *)e.p, own(), true) : zpl_uri_parse(&r, (char *)e.p, own()); REQUIRE(!err, "parse"); 
    auto write = [&]() { return k == 0 ? zpl_json_write_string(own(), &r, 0) : k == 1 ? zpl_csv_write_string(own(), &r) : zpl_uri_write_string(own(), &r); }; zpl_string full = write(); REQUIRE(full, "writing");
    long base = own_live; arm(g, own_sys, 14); g.note("format %d, %zu items, refusing %s", k, n, plan(own_sys).c_str()); zpl_string s = write(); if (own_sys.refused) REQUIRE(!s, "writing gives %ld of %ld characters although memory was refused", s ? (long)zpl_string_length(s) : 0, (long)zpl_string_length(full)); else REQUIRE(s && zpl_string_are_equal(s, full), "writing twice gives different texts");
    if (s) zpl_string_free(s); REQUIRE(own_live == base, "writing leaves %ld blocks", own_live - base); own_sys.on = false; if (own_sys.refused) g.nontrivial(); zpl_string_free(full); if (k == 0) zpl_json_free(&r); else if (k == 1) zpl_csv_free(&r); else zpl_uri_free(&r); REQUIRE(own_live == 0, "%ld blocks are left", own_live);
}
