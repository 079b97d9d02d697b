// T02: unpacking arbitrary, truncated and corrupted archives
// @fuzz-quick 8
// @fuzz-thorough 600
// @fuzz-max-len 6000
// @assume hostile names carry at most six parent steps (the target lies eight levels down in a scratch directory) and absolute names point into the scratch directory, so that even an escaping write stays in it.
#include "tarlib.hpp"
#include <fcntl.h>
#include <filesystem>
namespace fs = std::filesystem; using std::string;
struct Walk { size_t size, calls = 0, last = 0; std::vector<Hdr> seen; std::vector<long> errs; };
static ZPL_TAR_UNPACK_PROC(inspect) { Walk *w = (Walk *)user_data; w->calls++; REQUIRE(w->calls <= w->size / 512 + 1, "more entries than blocks in the archive"); size_t l = strlen(file->path); REQUIRE(l <= 100, "name of %zu bytes", l); REQUIRE(file->length >= 0 && file->offset >= 512 && (u64)file->offset <= w->size && (u64)file->length <= w->size - file->offset, "entry at %ld of %ld bytes in an archive of %zu", (long)file->offset, (long)file->length, w->size); REQUIRE((size_t)file->offset > w->last, "entries do not advance"); w->last = file->offset; w->seen.push_back({file->path, (u64)file->length, (u64)file->offset, file->type}); w->errs.push_back(file->error); return 0; }
static zpl_isize unpack(const string &a, Walk &w) { Exact e(a); zpl_file f; zpl_file_stream_open(&f, zpl_heap_allocator(), e.p, a.size(), (zpl_file_stream_flags)0); w.size = a.size(); zpl_isize r = zpl_tar_unpack(&f, inspect, &w); zpl_file_close(&f); REQUIRE(r <= 0 && r >= -ZPL_TAR_ERROR_INVALID_INPUT, "result %ld", (long)r); return r; }
static std::vector<Entry> some_entries(Gen &g, size_t max) { std::vector<Entry> es; for (size_t i = 0, n = g.u(max + 1); i < n; i++) { string nm = g.u(8) ? g.str(20, "ab/.c") : string(90 + g.u(11), 'k'); if (nm.empty()) nm = "e"; es.push_back({nm, g.bytes(g.u(3) ? g.size(200) : 508 + g.u(10))}); } return es; }
PROPERTY(valid, 60000, 800000, "at least 2 entries in a header style other than the packer's") {
    auto es = some_entries(g, 5); int style = (int)g.u(4); bool end = g.u(3) != 0; char type = g.pick(std::vector<char>{'0', '0', '1', '5', 0}); string a = make_tar(es, style, type, end); g.note("%zu entries, style %d, end marker %d", es.size(), style, end); if (es.size() >= 2 && style) g.nontrivial(); Walk w; zpl_isize r = unpack(a, w); REQUIRE(r == 0, "a valid archive gives error %ld", (long)r); REQUIRE(w.seen.size() == es.size(), "%zu entries seen, expected %zu", w.seen.size(), es.size());
    for (size_t i = 0; i < es.size(); i++) { REQUIRE(!w.errs[i], "entry %zu reports error %ld", i, w.errs[i]); REQUIRE(w.seen[i].name == es[i].name, "entry %zu is %s, expected %s", i, esc(w.seen[i].name).c_str(), esc(es[i].name).c_str()); REQUIRE(w.seen[i].size == es[i].data.size() && a.substr(w.seen[i].offset, w.seen[i].size) == es[i].data, "entry %zu: data", i); REQUIRE(w.seen[i].type == type, "entry %zu: type", i); }
}
PROPERTY(truncated, 60000, 800000, "cut inside a header or data block") {
    auto es = some_entries(g, 5); if (es.empty()) es.push_back({"e", "data"}); string a = make_tar(es, (int)g.u(4)); size_t cut = g.u(a.size() + 1); if (cut % 512) g.nontrivial(); g.note("%zu entries, cut to %zu of %zu bytes", es.size(), cut, a.size()); Walk w; zpl_isize r = unpack(a.substr(0, cut), w); size_t p = 0, whole = 0; bool inside = false; for (auto &e : es) { size_t q = p + 512 + e.data.size(); if (q <= cut) whole++; else { inside = cut > p; break; } p = (q + 511) / 512 * 512; }
    REQUIRE(w.seen.size() == whole, "%zu entries seen, %zu are complete", w.seen.size(), whole); for (size_t i = 0; i < whole; i++) REQUIRE(w.seen[i].name == es[i].name && !w.errs[i], "entry %zu is %s", i, w.seen[i].name.c_str()); if (inside) REQUIRE(r < 0, "an archive cut inside entry %zu is reported as complete", whole); else if (cut >= p && whole == es.size() && cut % 512 == 0) REQUIRE(r == 0, "an archive cut behind the last entry gives error %ld", (long)r);
}
PROPERTY(flipped, 100000, 1500000, "the changed byte lies in a header") {
    auto es = some_entries(g, 4); if (es.empty()) es.push_back({"e", "data"}); string a = make_tar(es, (int)g.u(4)); bool hdr = g.u(4) != 0; size_t at, which = g.u(es.size()), p = 0; for (size_t i = 0; i < which; i++) p = (p + 512 + es[i].data.size() + 511) / 512 * 512; at = hdr ? p + (g.boolean() ? 124 + g.u(12) : g.u(512)) : g.u(a.size()); unsigned char old = a[at], nw = (unsigned char)(old ^ (g.boolean() ? 1u << g.u(8) : 1 + g.u(255))); a[at] = (char)nw; g.note("byte %zu (offset %zu of header %zu) 0x%02x -> 0x%02x", at, at - p, which, old, nw); if (hdr) g.nontrivial();
    Walk w; zpl_isize r = unpack(a, w); size_t off = at - p; if (!hdr || (off >= 148 && off < 156)) return; REQUIRE(w.seen.size() >= which || r < 0, "entries before the change are missing"); for (size_t i = 0; i < which && i < w.seen.size(); i++) REQUIRE(w.seen[i].name == es[i].name && !w.errs[i], "entry %zu in front of the change", i); REQUIRE(r < 0 || (w.seen.size() > which && w.errs[which] == ZPL_TAR_ERROR_BAD_CHECKSUM), "a changed header (byte %zu) is accepted", off);
}
PROPERTY(arbitrary, 100000, 1500000, "at least one entry reported") {
    string a; size_t blocks = g.u(6); for (size_t i = 0; i < blocks; i++) switch (g.u(5)) { case 0: a += g.bytes(512); break; case 1: a += string(512, g.u(2) ? 0 : (char)g.u(256)); break; case 2: { string h = make_hdr(g.str(120, "ab/."), g.boolean() ? g.size(2000) : g.u64any(), (char)('0' + g.u(8)), (int)g.u(4)); size_t k = g.u(4); while (k--) h[g.u(512)] = (char)g.u(256); a += h; break; } case 3: { string h(512, 0); string f = g.bytes(12); h.replace(124, 12, f); h.replace(0, 100, string(100, 'x')); h[156] = '0'; char b[16]; snprintf(b, sizeof b, "%06o", (unsigned)checksum(h)); h.replace(148, 6, b); a += h; break; } default: { string h = make_hdr("n", 0, '0', 1); h.replace(124, 12, g.str(12, "01234567 -x89")); h.replace(148, 8, string(8, ' ')); char b[16]; snprintf(b, sizeof b, "%06o", (unsigned)checksum(h)); h.replace(148, 6, b); a += h; } }
    if (g.boolean()) a += g.bytes(g.u(600)); g.note("%zu bytes: %s", a.size(), esc(a).c_str()); Walk w; unpack(a, w); if (w.calls) g.nontrivial();
}
PROPERTY(hostile_names, 15000, 300000, "a name with a parent step or a leading separator") {
    string root = scratch() + "/h"; fs::remove_all(root); string deep = root + "/1/2/3/4/5/6/7", dst = deep + "/dst"; fs::create_directories(dst); fs::create_directories(root + "/abs"); std::vector<Entry> es; bool hostile = false; int ups = 0;
    for (size_t i = 0, n = 1 + g.u(4); i < n; i++) { string nm; if (g.u(6) == 0 && root.size() < 70) { nm = root + "/abs/" + string(1, "xyz"[g.u(3)]); hostile = true; } else { size_t c = 1 + g.u(5); for (size_t k = 0; k < c; k++) { string part = g.pick(std::vector<string>{"a", "b", "..", ".", "..c", "...", "", "d.."}); if (part == "..") { if (ups >= 6) part = "u"; else { ups++; hostile = true; } } nm += (k ? "/" : "") + part; } if (nm.size() && nm[0] == '/') nm = "z" + nm; if (nm.empty()) nm = "e"; } es.push_back({nm, g.bytes(g.u(20))}); g.note("name %s", esc(nm).c_str()); }
    if (hostile) g.nontrivial(); string a = make_tar(es, (int)g.u(4)); Exact e(a); zpl_file f; zpl_file_stream_open(&f, zpl_heap_allocator(), e.p, a.size(), (zpl_file_stream_flags)0); int way = (int)g.u(6), cwd = open(".", O_RDONLY); struct Back { int fd; ~Back() { if (fchdir(fd)) {} close(fd); } } back{cwd}; if (way >= 3 && chdir(dst.c_str())) fail("chdir"); static const char *const name[] = {"", ".", "./"}; string target = way >= 3 ? name[way - 3] : way == 2 ? dst + "/" : dst; g.note("target %s", way >= 3 ? esc(target).c_str() : "given in full"); zpl_isize r = zpl_tar_unpack_dir(&f, target.c_str()); zpl_file_close(&f); (void)r;
    string inside = dst + "/"; for (auto &x : fs::recursive_directory_iterator(root)) { string p = x.path().string(); if (p == root + "/abs" || p == dst || p.compare(0, inside.size(), inside) == 0) continue; REQUIRE(deep.compare(0, p.size(), p) == 0 && (deep.size() == p.size() || deep[p.size()] == '/'), "unpacking wrote %s outside the target", p.c_str() + root.size()); } fs::remove_all(root);
}
// The listing names every regular entry with its size, in order, and nothing else.
PROPERTY(listing, 30000, 400000, "at least 2 regular entries and another one") {
    auto es = some_entries(g, 5); std::vector<char> types; string a; size_t regular = 0; int style = (int)g.u(4); for (auto &e : es) { char t = g.u(3) ? '0' : g.pick(std::vector<char>{'1', '2', '3', '4', '5', '6'}); types.push_back(t); regular += t == '0'; a += make_tar({e}, style, t, false); } a += string(1024, 0); g.note("%zu entries, %zu regular, style %d", es.size(), regular, style);
    Exact x(a); zpl_file f; zpl_file_stream_open(&f, zpl_heap_allocator(), x.p, (zpl_isize)a.size(), (zpl_file_stream_flags)0); fflush(stdout); string p = scratch() + "/out"; int out = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600), keep = dup(1); dup2(out, 1); zpl_isize r = zpl_tar_unpack(&f, zpl_tar_default_list_file, NULL); dup2(keep, 1); close(keep); zpl_file_close(&f);
    string t((size_t)lseek(out, 0, SEEK_END), 0); if (pread(out, &t[0], t.size(), 0) < 0) {} close(out); REQUIRE(r == 0, "listing gives error %ld", (long)r); size_t at = 0, k = 0; for (size_t i = 0; i < es.size(); i++) { if (types[i] != '0') continue; size_t nl = t.find('\n', at); REQUIRE(nl != string::npos, "the listing has %zu lines, %zu regular entries", k, regular); string l = t.substr(at, nl - at); at = nl + 1; k++; size_t w = l.find(es[i].name); REQUIRE(w != string::npos, "line %zu is %s, entry %zu is %s", k, esc(l).c_str(), i, esc(es[i].name).c_str()); REQUIRE(l.find(std::to_string(es[i].data.size()), w + es[i].name.size()) != string::npos, "line %zu is %s, the entry has %zu bytes", k, esc(l).c_str(), es[i].data.size()); }
    REQUIRE(at == t.size(), "the listing goes on with %s", esc(t.substr(at)).c_str()); if (regular >= 2 && regular < es.size()) g.nontrivial();
}
