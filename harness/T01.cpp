// T01: packing and unpacking round-trip, read by an independent reader
// @assume file names are at most 99 bytes (longer ones must be refused) and contain no newline when a whole directory is packed; modification times are below 8^11 s.
#include "tarlib.hpp"
#include <fcntl.h>
#include <filesystem>
namespace fs = std::filesystem; using std::string;
static void spit(const string &p, const string &s) { FILE *f = fopen(p.c_str(), "wb"); if (!f) return; fwrite(s.data(), 1, s.size(), f); fclose(f); }
static string slurp(const string &p) { string s; FILE *f = fopen(p.c_str(), "rb"); if (!f) return "<missing>"; char b[8192]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); return s; }
struct Seen { std::vector<Entry> got; long stop = -1; };
static ZPL_TAR_UNPACK_PROC(collect) { Seen *s = (Seen *)user_data; Entry e; e.name = file->path; REQUIRE(file->error == 0, "entry %s reports error %ld", file->path, (long)file->error); REQUIRE(file->type == ZPL_TAR_TYPE_REGULAR, "entry type"); e.data.resize(file->length); zpl_isize k = -1; REQUIRE(zpl_file_read_at_check(archive, &e.data[0], file->length, file->offset, &k) && k == file->length, "entry %s: %ld of %ld bytes readable", file->path, (long)k, (long)file->length); s->got.push_back(e); if (s->got.size() % 2) zpl_file_seek(archive, 3); return s->stop >= 0 && (long)s->got.size() > s->stop; }
static string rname(Gen &g) { string s; size_t d = g.u(4); for (size_t i = 0; i < d; i++) s += string(1 + (g.u(4) == 0) * g.u(20), "abc"[g.u(3)]) + "/"; s += g.u(3) ? string(1, "xyz"[g.u(3)]) + g.str(6, "t. x\xe9") : string(1 + g.u(40), 'n'); if (g.u(6) == 0 && s.size() < 99) s += string(g.u(2) ? 99 - s.size() : g.u(100 - s.size()), 'm'); return s.substr(0, 99); }
static std::map<string, string> tree(const string &d) { std::map<string, string> m; if (fs::exists(d)) for (auto &e : fs::recursive_directory_iterator(d)) if (e.is_regular_file()) m[fs::relative(e.path(), d).string()] = slurp(e.path().string()); return m; }
PROPERTY(roundtrip, 15000, 300000, "at least 2 files with content") {
    string root = scratch() + "/p"; fs::remove_all(root); mkdir(root.c_str(), 0755); int cwd = open(".", O_RDONLY); string src = root + "/s"; mkdir(src.c_str(), 0755); if (chdir(src.c_str())) fail("chdir"); struct Back { int fd; ~Back() { if (fchdir(fd)) {} close(fd); } } back{cwd};
    std::vector<Entry> es; std::map<string, string> files; size_t n = g.u(7), full = 0; for (size_t i = 0; i < n; i++) { Entry e; e.name = rname(g); while (!e.name.empty() && (e.name.back() == '/')) e.name += 'q'; size_t sl = e.name.rfind('/'); std::error_code ec; if (sl != string::npos && !fs::create_directories(e.name.substr(0, sl), ec) && ec) continue; if (fs::is_directory(e.name)) continue; if (files.count(e.name)) { es.push_back({e.name, files[e.name]}); continue; } e.data = some_data(g); spit(e.name, e.data); if (slurp(e.name) != e.data) continue; files[e.name] = e.data; es.push_back(e); full += !e.data.empty(); g.note("file %s: %zu bytes", esc(e.name).c_str(), e.data.size()); }
    if (full >= 2) g.nontrivial(); bool dirmode = g.u(3) == 0, onfile = g.boolean(); std::error_code ec; if (dirmode && g.boolean()) fs::create_directories("emptydir/deep", ec);
    zpl_file ar; if (onfile) REQUIRE(zpl_file_create(&ar, (root + "/a.tar").c_str()) == 0, "create"); else zpl_file_stream_new(&ar, zpl_heap_allocator());
    zpl_isize r; std::vector<Entry> want = es;
    if (dirmode) { r = zpl_tar_pack_dir(&ar, ".", zpl_heap_allocator()); want.clear(); for (auto &f : files) want.push_back({"./" + f.first, f.second}); bool too_long = false; for (auto &w : want) too_long |= w.name.size() > 99; if (too_long) { REQUIRE(r == -ZPL_TAR_ERROR_INVALID_INPUT, "packing a name of more than 99 bytes gives %ld", (long)r); zpl_file_close(&ar); fs::remove_all(root); return; } }
    else { std::vector<const char *> ps; for (auto &e : es) ps.push_back(e.name.c_str()); static const char *none[1] = {0}; r = zpl_tar_pack(&ar, ps.empty() ? none : ps.data(), ps.size()); }
    REQUIRE(r == 0, "pack gives error %ld", (long)r); string bytes(zpl_file_size(&ar), 0); zpl_file_read_at(&ar, &bytes[0], bytes.size(), 0); auto byname = [](const Entry &a, const Entry &b) { return a.name < b.name; };
    std::vector<Entry> got = read_tar(bytes); if (dirmode) std::sort(got.begin(), got.end(), byname); if (dirmode) std::sort(want.begin(), want.end(), byname);
    auto same = [&](const std::vector<Entry> &a, const char *who) { REQUIRE(a.size() == want.size(), "%s sees %zu entries, expected %zu", who, a.size(), want.size()); for (size_t i = 0; i < a.size(); i++) { REQUIRE(a[i].name == want[i].name, "%s: entry %zu is %s, expected %s", who, i, esc(a[i].name).c_str(), esc(want[i].name).c_str()); REQUIRE(a[i].data == want[i].data, "%s: data of %s differ", who, a[i].name.c_str()); } }; same(got, "the independent reader");
    zpl_file_seek(&ar, 0); Seen s; r = zpl_tar_unpack(&ar, collect, &s); REQUIRE(r == 0, "unpack gives error %ld", (long)r); if (dirmode) std::sort(s.got.begin(), s.got.end(), byname); same(s.got, "unpack");
    if (!want.empty()) { Seen t; t.stop = g.u(want.size()); zpl_file_seek(&ar, 0); r = zpl_tar_unpack(&ar, collect, &t); REQUIRE(r == -ZPL_TAR_ERROR_INTERRUPTED && t.got.size() == (size_t)t.stop + 1, "interrupting at entry %ld: error %ld after %zu entries", t.stop, (long)r, t.got.size()); }
    string dst = root + (g.boolean() ? "/d" : "/d/"); bool pre = g.boolean(); if (pre) fs::create_directories(dst); zpl_file_seek(&ar, 0); r = zpl_tar_unpack_dir(&ar, dst.c_str()); REQUIRE(r == 0, "unpack_dir gives error %ld", (long)r); auto back_tree = tree(dst); REQUIRE(back_tree.size() == files.size(), "%zu files unpacked, expected %zu", back_tree.size(), files.size()); for (auto &f : files) { string k = fs::path(f.first).lexically_normal().string(); REQUIRE(back_tree.count(k), "%s was not unpacked", f.first.c_str()); REQUIRE(back_tree[k] == f.second, "%s was unpacked with other contents", f.first.c_str()); }
    zpl_file_close(&ar); if (chdir("/")) {} fs::remove_all(root);
}
PROPERTY(refusals, 20000, 300000, "always (one refusal)") {
    g.nontrivial(); string root = scratch() + "/r"; fs::remove_all(root); mkdir(root.c_str(), 0755); int cwd = open(".", O_RDONLY); if (chdir(root.c_str())) fail("chdir"); struct Back { int fd; ~Back() { if (fchdir(fd)) {} close(fd); } } back{cwd}; string d = some_data(g); spit("ok", d); zpl_file ar; const char *ps[2] = {"ok", "ok"}; zpl_isize r;
    switch (g.u(4)) {
    case 0: { g.note("missing file"); ps[g.u(2)] = "none"; zpl_file_stream_new(&ar, zpl_heap_allocator()); r = zpl_tar_pack(&ar, ps, 2); REQUIRE(r == -ZPL_TAR_ERROR_FILE_NOT_FOUND, "packing a missing file gives %ld", (long)r); break; }
    case 1: { string l = string(100 + g.u(100), 'l'); g.note("name of %zu bytes", l.size()); spit(l, "x"); ps[g.u(2)] = l.c_str(); zpl_file_stream_new(&ar, zpl_heap_allocator()); r = zpl_tar_pack(&ar, ps, 2); REQUIRE(r == -ZPL_TAR_ERROR_INVALID_INPUT, "packing a name that does not fit gives %ld", (long)r); break; }
    case 2: { mkdir("dir", 0755); ps[g.u(2)] = "dir"; zpl_file_stream_new(&ar, zpl_heap_allocator()); r = zpl_tar_pack(&ar, ps, 2); REQUIRE(r < 0, "packing a directory as a file gives %ld", (long)r); break; }
    default: { size_t need = 2 * (512 + (d.size() + 511) / 512 * 512) + 1024, cap = g.u(need + 600); Exact buf(cap, 0x33); g.note("archive of %zu bytes into %zu", need, cap); zpl_file_stream_open(&ar, zpl_heap_allocator(), buf.p, cap, ZPL_FILE_STREAM_WRITABLE); r = zpl_tar_pack(&ar, ps, 2); REQUIRE((r == 0) == (cap >= need), "packing %zu bytes into room for %zu gives %ld", need, cap, (long)r); if (!r) { auto es = read_tar(string(buf.c(), need)); REQUIRE(es.size() == 2 && es[1].data == d, "archive"); } } }
    zpl_file_close(&ar); if (chdir("/")) {} fs::remove_all(root);
}
// Archives kept by the program's own operations, which deliver data in parts or fail at some point, and targets that run full: an error is reported, or everything is there.
#include <sys/resource.h>
#include <csignal>
struct Med { string d; int64_t pos = 0; long calls = 0, fail_at = -1, failed = 0; u64 parts = 0; size_t room = ~(size_t)0; bool fails() { if (calls++ == fail_at) { failed++; return true; } return false; } size_t most(size_t n) { return parts && n ? 1 + splitmix(parts) % n : n; } };
static ZPL_FILE_READ_AT_PROC(med_read) { Med &m = *(Med *)fd.p; if (m.fails()) { if (bytes_read) *bytes_read = 0; return false; } size_t k = offset < (int64_t)m.d.size() ? m.most(std::min((size_t)size, m.d.size() - (size_t)offset)) : 0; if (k) memcpy(buffer, m.d.data() + offset, k); if (bytes_read) *bytes_read = (zpl_isize)k; return true; }
static ZPL_FILE_WRITE_AT_PROC(med_write) { Med &m = *(Med *)fd.p; if (m.fails()) { if (bytes_written) *bytes_written = 0; return false; } size_t k = (size_t)offset >= m.room ? 0 : std::min((size_t)size, m.room - (size_t)offset); if (k < (size_t)size) m.failed++; if (k && offset + k > m.d.size()) m.d.resize(offset + k); if (k) memcpy(&m.d[offset], buffer, k); if (bytes_written) *bytes_written = (zpl_isize)k; return true; }
static ZPL_FILE_SEEK_PROC(med_seek) { Med &m = *(Med *)fd.p; int64_t p = offset + (whence == ZPL_SEEK_WHENCE_BEGIN ? 0 : whence == ZPL_SEEK_WHENCE_CURRENT ? m.pos : (int64_t)m.d.size()); if (p < 0) return false; m.pos = p; if (new_offset) *new_offset = p; return true; }
static ZPL_FILE_CLOSE_PROC(med_close) { (void)fd; }
PROPERTY(media, 12000, 200000, "the medium failed, was full or delivered parts, or the target was full") {
    string root = scratch() + "/m"; fs::remove_all(root); mkdir(root.c_str(), 0755); int cwd = open(".", O_RDONLY); if (chdir(root.c_str())) fail("chdir"); struct Back { int fd; ~Back() { if (fchdir(fd)) {} close(fd); } } back{cwd};
    Med m; zpl_file ar; zpl_file_operations ops = {med_read, med_write, med_seek, med_close}; zpl_file_descriptor fd; fd.p = &m; REQUIRE(zpl_file_new(&ar, fd, ops, "none") == ZPL_FILE_ERROR_NONE, "zpl_file_new failed");
    size_t n = 1 + g.u(4); std::vector<string> names, data; std::vector<const char *> ps; size_t need = 1024, biggest = 0, blocks = 2; for (size_t i = 0; i < n; i++) { names.push_back("f" + std::to_string(i)); string d = some_data(g); if (g.u(6) == 5) d += string(5000, 'z'); data.push_back(d); spit(names[i], d); need += 512 + (d.size() + 511) / 512 * 512; biggest = std::max(biggest, d.size()); blocks += 3; } for (auto &s : names) ps.push_back(s.c_str());
    auto whole = [&](const string &a) { auto es = read_tar(a); REQUIRE(es.size() == n, "the archive has %zu entries, expected %zu", es.size(), n); for (size_t i = 0; i < n; i++) REQUIRE(es[i].name == names[i] && es[i].data == data[i], "entry %zu is wrong", i); };
    int what = (int)g.u(5); zpl_isize r;
    if (what < 2) { if (what == 0) m.fail_at = (long)g.u(3 * n + 3); else m.room = g.u(need + 700); g.note("packing %zu files of at most %zu bytes, %s", n, biggest, what == 0 ? "a write fails" : "room for part of them"); r = zpl_tar_pack(&ar, ps.data(), (zpl_isize)n); REQUIRE((r == 0) == !m.failed, "packing gives %ld, %ld writes failed", (long)r, m.failed); if (!r) whole(m.d); if (m.failed) g.nontrivial(); }
    else { r = zpl_tar_pack(&ar, ps.data(), (zpl_isize)n); REQUIRE(r == 0, "packing gives %ld", (long)r); whole(m.d); zpl_file_seek(&ar, 0); m.calls = 0; string dst = root + "/out"; bool full = what == 4, limited = false; struct rlimit o, l; getrlimit(RLIMIT_FSIZE, &o);
        if (what == 2) m.fail_at = (long)g.u(2 * n + 3); if (what == 3) m.parts = 1 + g.u(1u << 30); if (full) { signal(SIGXFSZ, SIG_IGN); l = o; l.rlim_cur = 1 + g.u(biggest + 300); limited = l.rlim_cur < biggest; }
        g.note("unpacking %zu files of at most %zu bytes, %s", n, biggest, what == 2 ? "a read fails" : what == 3 ? "read in parts" : "a full target"); if (full) setrlimit(RLIMIT_FSIZE, &l); r = zpl_tar_unpack_dir(&ar, dst.c_str()); if (full) { setrlimit(RLIMIT_FSIZE, &o); signal(SIGXFSZ, SIG_DFL); }
        if (m.failed || limited) { g.nontrivial(); REQUIRE(r < 0, "unpacking gives %ld although %s", (long)r, limited ? "a file did not fit" : "a read failed"); } else if (what != 3) REQUIRE(r == 0, "unpacking gives %ld", (long)r); if (what == 3) g.nontrivial();
        if (!r) { auto t = tree(dst); REQUIRE(t.size() == n, "%zu files unpacked, expected %zu", t.size(), n); for (size_t i = 0; i < n; i++) REQUIRE(t[names[i]] == data[i], "%s differs", names[i].c_str()); } }
    zpl_file_close(&ar); int d0 = dup(0); close(d0); REQUIRE(d0 <= cwd + 1, "descriptors stayed open"); if (chdir("/")) {} fs::remove_all(root);
}
