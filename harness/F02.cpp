// F02: files against an ideal file, cross-checked with libc
// @assume the position after a positional write is not promised (either unchanged or behind the written bytes), nor where an append leaves it; the checks seek before relying on it.
// @assume runs as root: permission failures are represented by directories, missing paths, over-long names, /dev/full and a file-size limit.
#include "zh.hpp"
#include <fcntl.h>
#include <sys/resource.h>
static std::string slurp(const std::string &p) { std::string s; FILE *f = fopen(p.c_str(), "rb"); if (!f) return "<missing>"; char b[8192]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); return s; }
static void spit(const std::string &p, const std::string &s) { FILE *f = fopen(p.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static std::string content(Gen &g) { size_t n = g.size(g.chance(1, 20) ? 20000 : 120); if (n > 200) { std::string s(n, 0); u64 x = g.u(~0ull); for (auto &c : s) c = (char)splitmix(x); return s; } return g.bytes(n); }
PROPERTY(history, 40000, 800000, "at least 3 writes or truncations and a read meeting the end of the file") {
    std::string path = scratch() + "/f"; unlink(path.c_str()); bool exists = g.u(4) != 0; std::string disk; if (exists) { disk = content(g); spit(path, disk); }
    size_t opens = 1 + g.u(3), writes = 0; bool rd_end = false;
    for (size_t o = 0; o < opens; o++) {
        static const zpl_file_mode modes[] = {ZPL_FILE_MODE_READ, ZPL_FILE_MODE_WRITE, ZPL_FILE_MODE_APPEND, ZPL_FILE_MODE_READ | ZPL_FILE_MODE_RW, ZPL_FILE_MODE_WRITE | ZPL_FILE_MODE_RW, ZPL_FILE_MODE_APPEND | ZPL_FILE_MODE_RW};
        int mi = (int)g.u(9); zpl_file f; memset(&f, 0x5a, sizeof f); zpl_file_error e; bool temp = mi == 8, is_read = false;
        if (temp) { e = zpl_file_temp(&f); g.note("temporary file"); } else if (mi == 6) { e = zpl_file_create(&f, path.c_str()); mi = 4; } else if (mi == 7) { e = zpl_file_open(&f, path.c_str()); mi = 0; } else e = zpl_file_open_mode(&f, modes[mi], path.c_str());
        if (!temp) g.note("open with mode %d (file %s)", (int)modes[mi], exists ? "exists" : "missing"); is_read = !temp && (mi == 0 || mi == 3);
        if (is_read && !exists) { REQUIRE(e == ZPL_FILE_ERROR_NOT_EXISTS, "opening a missing file for reading gives error %d", e); REQUIRE(access(path.c_str(), F_OK) != 0, "the file was created"); continue; }
        REQUIRE(e == ZPL_FILE_ERROR_NONE, "open gives error %d", e); bool can_read = temp || mi == 0 || mi >= 3, can_write = temp || mi != 0, append = !temp && (mi == 2 || mi == 5);
        std::string m = temp || mi == 1 || mi == 4 ? "" : disk; if (!temp) { exists = true; REQUIRE(!strcmp(zpl_file_name(&f), path.c_str()), "file name is %s", zpl_file_name(&f)); }
        int64_t cur = 0; REQUIRE(zpl_file_tell(&f) == 0, "position after opening is %ld", (long)zpl_file_tell(&f)); auto put = [&](int64_t off, const std::string &d) { if (append) off = m.size(); if (d.empty()) return; if (off + d.size() > m.size()) m.resize(off + d.size(), 0); m.replace(off, d.size(), d); writes++; };
        for (size_t i = 0, n = 1 + g.u(12); i < n; i++) {
            switch (g.u(9)) {
            case 0: { size_t k = g.size(150); Exact b(k, 0x77); bool r = zpl_file_read(&f, b.p, k); g.note("read %zu at %ld", k, (long)cur); if (!can_read) { REQUIRE(!r || !k, "reading a write-only file succeeded"); break; } size_t w = cur < (int64_t)m.size() ? std::min<size_t>(k, m.size() - cur) : 0; if (w < k) rd_end = true; REQUIRE(r, "read failed"); REQUIRE(!w || !memcmp(b.p, m.data() + cur, w), "read gives %s, expected %s", esc(b.p, w).c_str(), esc(m.substr(cur, w)).c_str()); for (size_t j = w; j < k; j++) REQUIRE(b.p[j] == 0x77, "read wrote past what it read"); cur += w; break; }
            case 1: { size_t k = g.size(150), off = g.u(m.size() + 5); Exact b(k, 0x77); zpl_isize got = -1; bool r = zpl_file_read_at_check(&f, b.p, k, off, &got); g.note("read %zu at offset %zu", k, off); if (!can_read) { REQUIRE(!r || !k, "reading a write-only file succeeded"); break; } size_t w = off < m.size() ? std::min<size_t>(k, m.size() - off) : 0; if (w < k) rd_end = true; REQUIRE(r && got == (zpl_isize)w, "read_at(%zu, %zu) of %zu bytes reports %ld", k, off, m.size(), (long)got); REQUIRE(!w || !memcmp(b.p, m.data() + off, w), "read_at gives other bytes"); break; }
            case 2: case 3: { std::string d = content(g); Exact e(d); bool r = zpl_file_write(&f, e.p, d.size()); g.note("write %zu at %ld", d.size(), (long)cur); if (!can_write) { REQUIRE(!r || d.empty(), "writing a read-only file succeeded"); break; } REQUIRE(r, "write failed"); put(cur, d); if (append) { zpl_file_seek(&f, cur); } else cur += d.size(); break; }
            case 4: { std::string d = content(g); Exact e(d); int64_t off = g.boolean() ? cur : (int64_t)g.u(m.size() + 20); zpl_isize k = -1; bool r = zpl_file_write_at_check(&f, e.p, d.size(), off, &k); g.note("write %zu at offset %ld", d.size(), (long)off); if (!can_write) { REQUIRE(!r || d.empty(), "writing a read-only file succeeded"); break; } put(off, d); REQUIRE(r && k == (zpl_isize)d.size(), "write_at(%zu, %ld) reports %ld", d.size(), (long)off, (long)k); int64_t t = zpl_file_tell(&f); if (!append) REQUIRE(t == cur || t == off + (int64_t)d.size(), "write_at left the position at %ld", (long)t); zpl_file_seek(&f, cur); break; }
            case 5: { int64_t off = g.u(m.size() + 6); int64_t r = zpl_file_seek(&f, off); cur = off; g.note("seek %ld", (long)off); REQUIRE(r == cur, "seek(%ld) gives %ld", (long)off, (long)r); break; }
            case 6: { int64_t r = zpl_file_seek_to_end(&f); cur = m.size(); REQUIRE(r == cur, "seek_to_end gives %ld, expected %ld", (long)r, (long)cur); break; }
            case 7: { int64_t d = g.range(-cur, 20); int64_t r = zpl_file_skip(&f, d); cur += d; g.note("skip %ld", (long)d); REQUIRE(r == cur, "skip(%ld) gives %ld, expected %ld", (long)d, (long)r, (long)cur); break; }
            default: { size_t sz = g.u(m.size() + 10); zpl_file_error t = zpl_file_truncate(&f, sz); g.note("truncate to %zu", sz); if (!can_write) { REQUIRE(t == ZPL_FILE_ERROR_TRUNCATION_FAILURE, "truncating a read-only file gives %d", t); break; } REQUIRE(t == ZPL_FILE_ERROR_NONE, "truncate gives error %d", t); m.resize(sz, 0); writes++; } }
            REQUIRE(zpl_file_tell(&f) == cur, "position %ld, expected %ld", (long)zpl_file_tell(&f), (long)cur); REQUIRE(zpl_file_size(&f) == (zpl_i64)m.size(), "size %ld, expected %zu", (long)zpl_file_size(&f), m.size()); REQUIRE(zpl_file_tell(&f) == cur, "asking for the size moved the position");
            if (g.u(4) == 0 && !temp) { std::string s = slurp(path); REQUIRE(s == m, "disk holds %s, expected %s", esc(s).c_str(), esc(m).c_str()); }
        }
        if (temp) { std::string s(m.size(), 0); REQUIRE(zpl_file_read_at(&f, &s[0], s.size(), 0) && s == m, "temporary file holds %s, expected %s", esc(s).c_str(), esc(m).c_str()); }
        int fd = (int)f.fd.i; REQUIRE(zpl_file_close(&f) == ZPL_FILE_ERROR_NONE, "close"); REQUIRE(fcntl(fd, F_GETFD) == -1, "closing left the descriptor open"); if (!temp) { disk = m; std::string s = slurp(path); REQUIRE(s == m, "after closing, disk holds %s, expected %s", esc(s).c_str(), esc(m).c_str()); }
    }
    if (writes >= 3 && rd_end) g.nontrivial(); unlink(path.c_str());
}
PROPERTY(whole_file, 60000, 1000000, "non-empty content") {
    std::string path = scratch() + "/w"; unlink(path.c_str()); if (g.boolean()) spit(path, content(g)); std::string d = content(g); Exact e(d); g.note("contents %s", esc(d).c_str()); if (!d.empty()) g.nontrivial();
    zpl_file_error err = ZPL_FILE_ERROR_NONE; bool want_err = g.boolean(); REQUIRE(zpl_file_write_contents(path.c_str(), e.p, d.size(), want_err ? &err : 0), "write_contents failed"); REQUIRE(err == ZPL_FILE_ERROR_NONE, "write_contents reports error %d", err); std::string s = slurp(path); REQUIRE(s == d, "disk holds %s", esc(s).c_str());
    bool z = g.boolean(); zpl_file_contents c = zpl_file_read_contents(zpl_heap_allocator(), z, path.c_str()); REQUIRE(c.size == (zpl_isize)d.size(), "read_contents gives %ld bytes of %zu", (long)c.size, d.size()); if (d.size()) { REQUIRE(c.data && !memcmp(c.data, d.data(), d.size()), "read_contents gives other bytes"); if (z) REQUIRE(((char *)c.data)[d.size()] == 0, "read_contents did not terminate"); zpl_file_free_contents(&c); REQUIRE(!c.data && !c.size, "freed contents keep a pointer"); }
    std::string t = g.str(100, "ab \n\n\r"); spit(path, t); bool strip = g.boolean(); std::vector<std::string> want; size_t i = 0; while (i < t.size()) { size_t j = std::min(t.find('\n', i), t.size()); std::string l = t.substr(i, j - i); if (!l.empty() && l.back() == '\r') l.pop_back(); if (!strip || !l.empty()) want.push_back(l); i = j + 1; }
    g.note("lines of %s", esc(t).c_str()); char **lines = 0; char *buf = zpl_file_read_lines(zpl_heap_allocator(), &lines, path.c_str(), strip); REQUIRE(zpl_array_count(lines) == (zpl_isize)want.size(), "%ld lines, expected %zu", (long)zpl_array_count(lines), want.size()); for (size_t k = 0; k < want.size(); k++) REQUIRE(want[k] == lines[k], "line %zu is %s", k, esc(lines[k], strlen(lines[k])).c_str()); zpl_array_free(lines); zpl_free(zpl_heap_allocator(), buf); unlink(path.c_str());
}
PROPERTY(faults, 20000, 300000, "always (one injected fault)") {
    g.nontrivial(); std::string s = scratch(), d = content(g); zpl_file f; zpl_file_error e; zpl_file_error err = ZPL_FILE_ERROR_NONE;
    switch (g.u(5)) {
    case 0: { std::string p = s + "/none"; g.note("missing file"); e = zpl_file_open(&f, p.c_str()); REQUIRE(e == ZPL_FILE_ERROR_NOT_EXISTS, "open of a missing file gives error %d", e); REQUIRE(zpl_file_close(&f) == ZPL_FILE_ERROR_INVALID, "closing a file that never opened succeeded"); zpl_file_contents c = zpl_file_read_contents(zpl_heap_allocator(), 1, p.c_str()); REQUIRE(!c.data && !c.size, "reading a missing file gives %ld bytes", (long)c.size); break; }
    case 1: { std::string p = s + "/no/such/dir"; g.note("missing directory"); REQUIRE(!zpl_file_write_contents(p.c_str(), d.data(), d.size(), &err) && err == ZPL_FILE_ERROR_NOT_EXISTS, "writing below a missing directory reports %d", err); REQUIRE(zpl_file_create(&f, p.c_str()) == ZPL_FILE_ERROR_NOT_EXISTS, "creating below a missing directory"); break; }
    case 2: { g.note("a directory"); zpl_file_contents c = zpl_file_read_contents(zpl_heap_allocator(), 1, s.c_str()); REQUIRE(!c.data && !c.size, "reading a directory gives %ld bytes", (long)c.size); REQUIRE(zpl_file_create(&f, s.c_str()) != ZPL_FILE_ERROR_NONE, "creating over a directory succeeded"); std::string p = s + "/" + std::string(300, 'n'); REQUIRE(zpl_file_create(&f, p.c_str()) == ZPL_FILE_ERROR_NAME_TOO_LONG, "over-long name"); break; }
    case 3: { if (d.empty()) d = "x"; g.note("a full device, %zu bytes", d.size()); REQUIRE(!zpl_file_write_contents("/dev/full", d.data(), d.size(), &err) && err != ZPL_FILE_ERROR_NONE, "writing to a full device succeeded (error %d)", err); REQUIRE(zpl_file_open_mode(&f, ZPL_FILE_MODE_APPEND, "/dev/full") == ZPL_FILE_ERROR_NONE, "open"); REQUIRE(!zpl_file_write(&f, d.data(), d.size()), "writing to a full device succeeded"); zpl_file_close(&f); break; }
    default: { std::string p = s + "/lim"; unlink(p.c_str()); signal(SIGXFSZ, SIG_IGN); struct rlimit o, l; getrlimit(RLIMIT_FSIZE, &o); l = o; l.rlim_cur = 1 + g.u(200); std::string w = g.bytes(g.u(260)); g.note("file size limited to %ld, writing %zu", (long)l.rlim_cur, w.size()); setrlimit(RLIMIT_FSIZE, &l); bool r = zpl_file_write_contents(p.c_str(), w.data(), w.size(), &err); setrlimit(RLIMIT_FSIZE, &o); bool fits = w.size() <= l.rlim_cur; REQUIRE(r == fits && (err == ZPL_FILE_ERROR_NONE) == fits, "write_contents returns %d, error %d", r, err); REQUIRE(slurp(p) == w.substr(0, l.rlim_cur), "disk holds other bytes"); unlink(p.c_str()); } }
}
// a file the program makes from its own descriptor and operations, or from a handle of the system
struct Mem { std::string d; int64_t pos = 0; int closed = 0; size_t most = ~(size_t)0; bool fail = false; };
static ZPL_FILE_READ_AT_PROC(mem_read) { Mem &m = *(Mem *)fd.p; if (m.fail) { if (bytes_read) *bytes_read = 0; return false; } size_t k = offset < (int64_t)m.d.size() ? std::min({(size_t)size, m.d.size() - (size_t)offset, m.most}) : 0; memcpy(buffer, m.d.data() + (k ? offset : 0), k); if (bytes_read) *bytes_read = (zpl_isize)k; return true; }
static ZPL_FILE_WRITE_AT_PROC(mem_write) { Mem &m = *(Mem *)fd.p; if (m.fail) { if (bytes_written) *bytes_written = 0; return false; } size_t k = std::min((size_t)size, m.most); if (k && offset + k > m.d.size()) m.d.resize(offset + k); if (k) memcpy(&m.d[offset], buffer, k); if (bytes_written) *bytes_written = (zpl_isize)k; return true; }
static ZPL_FILE_SEEK_PROC(mem_seek) { Mem &m = *(Mem *)fd.p; int64_t p = offset + (whence == ZPL_SEEK_WHENCE_BEGIN ? 0 : whence == ZPL_SEEK_WHENCE_CURRENT ? m.pos : (int64_t)m.d.size()); if (p < 0) return false; m.pos = p; if (new_offset) *new_offset = p; return true; }
static ZPL_FILE_CLOSE_PROC(mem_close) { ((Mem *)fd.p)->closed++; }
PROPERTY(own_operations, 100000, 2000000, "at least 2 writes and 2 reads, some of which the program's operations carry out in part") {
    Mem m; m.d = content(g); std::string d = m.d; int64_t pos = 0; zpl_file f; bool blank = g.boolean(); memset(&f, blank ? 0 : 0x5a, sizeof f); zpl_file_operations ops = {mem_read, mem_write, mem_seek, mem_close}; zpl_file_descriptor fd; fd.p = &m; std::string name = g.str(8, "ab/. "); size_t wr = 0, rd = 0; bool part = false;
    { Exact n(name, true); REQUIRE(zpl_file_new(&f, fd, ops, n.c()) == ZPL_FILE_ERROR_NONE, "zpl_file_new failed"); } REQUIRE(name == zpl_file_name(&f), "the file's name is %s, expected %s", zpl_file_name(&f), name.c_str()); REQUIRE(!f.dir && !f.last_write_time, "a new file has a directory or a time of writing");
    for (size_t i = 0, n = 1 + g.u(12); i < n; i++) {
        m.most = g.u(3) ? ~(size_t)0 : g.u(40); m.fail = g.u(8) == 7; zpl_isize got = -1;
        switch (g.u(7)) {
            case 0: { size_t k = g.size(60), w = m.fail || pos >= (int64_t)d.size() ? 0 : std::min({k, d.size() - (size_t)pos, m.most}); Exact b(k, 0x77); bool r = zpl_file_read(&f, b.p, (zpl_isize)k); g.note("read %zu at %ld, at most %zu%s", k, (long)pos, m.most, m.fail ? ", failing" : ""); REQUIRE(r == !m.fail, "read reports %d", r); REQUIRE(!memcmp(b.p, d.data() + (w ? pos : 0), w), "read delivers other bytes"); pos += w; rd++; part |= m.most < k; break; }
            case 1: { size_t k = g.size(60), w = m.fail ? 0 : std::min(k, m.most); std::string s = g.bytes(k); Exact b(s); bool r = zpl_file_write(&f, b.p, (zpl_isize)k); g.note("write %zu at %ld, at most %zu%s", k, (long)pos, m.most, m.fail ? ", failing" : ""); REQUIRE(r == !m.fail, "write reports %d", r); if (w && pos + w > d.size()) d.resize(pos + w); d.replace(w ? pos : 0, w, s, 0, w); pos += w; wr++; part |= m.most < k; break; }
            case 2: { size_t k = g.size(60), off = g.u(d.size() + 5), w = m.fail || off >= d.size() ? 0 : std::min({k, d.size() - off, m.most}); Exact b(k, 0x77); bool plain = g.boolean(), r = plain ? zpl_file_read_at(&f, b.p, (zpl_isize)k, off) : zpl_file_read_at_check(&f, b.p, (zpl_isize)k, off, &got); REQUIRE(r == !m.fail && (plain || got == (zpl_isize)w) && !memcmp(b.p, d.data() + (w ? off : 0), w), "reading %zu at offset %zu gives %d, %ld bytes, expected %zu", k, off, r, (long)got, w); rd++; break; }
            case 3: { size_t k = g.size(60), off = g.u(d.size() + 5), w = m.fail ? 0 : std::min(k, m.most); std::string s = g.bytes(k); Exact b(s); bool plain = g.boolean(), r = plain ? zpl_file_write_at(&f, b.p, (zpl_isize)k, off) : zpl_file_write_at_check(&f, b.p, (zpl_isize)k, off, &got); REQUIRE(r == !m.fail && (plain || got == (zpl_isize)w), "writing %zu at offset %zu gives %d, %ld bytes, expected %zu", k, off, r, (long)got, w); if (w && off + w > d.size()) d.resize(off + w); d.replace(w ? off : 0, w, s, 0, w); wr++; break; }
            case 4: { int64_t off = g.u(d.size() + 6), r = zpl_file_seek(&f, off); pos = off; REQUIRE(r == pos, "seek(%ld) gives %ld", (long)off, (long)r); break; }
            case 5: { int64_t r = zpl_file_seek_to_end(&f); pos = d.size(); REQUIRE(r == pos, "seek_to_end gives %ld of %zu", (long)r, d.size()); break; }
            default: { int64_t k = g.range(-pos, 20), r = zpl_file_skip(&f, k); pos += k; REQUIRE(r == pos, "skip(%ld) gives %ld, expected %ld", (long)k, (long)r, (long)pos); }
        }
        m.fail = false; REQUIRE(m.d == d, "the program's file holds %s, expected %s", esc(m.d).c_str(), esc(d).c_str()); REQUIRE(zpl_file_tell(&f) == pos && zpl_file_size(&f) == (zpl_i64)d.size() && zpl_file_tell(&f) == pos, "position %ld or size %ld is wrong, expected %ld and %zu", (long)zpl_file_tell(&f), (long)zpl_file_size(&f), (long)pos, d.size());
    }
    if (g.u(4) == 0) { std::string p = scratch() + "/named"; zpl_file f2; memset(&f2, blank ? 0 : 0x5a, sizeof f2); spit(p, d); REQUIRE(zpl_file_new(&f2, fd, ops, p.c_str()) == ZPL_FILE_ERROR_NONE, "zpl_file_new failed"); REQUIRE(zpl_file_has_changed(&f2) && !zpl_file_has_changed(&f2), "the first time a file's changes are asked for it has changed, and not again at once"); REQUIRE(zpl_file_close(&f2) == ZPL_FILE_ERROR_NONE && m.closed == 1, "close"); m.closed = 0; unlink(p.c_str()); }
    REQUIRE(m.closed == 0, "the file was closed before its end"); REQUIRE(zpl_file_close(&f) == ZPL_FILE_ERROR_NONE && m.closed == 1, "closing the file called the program's operation %d times", m.closed); if (wr >= 2 && rd >= 2 && part) g.nontrivial();
}
PROPERTY(handles_and_permissions, 20000, 300000, "a file of at least 20 bytes") {
    std::string p = scratch() + "/h", d = content(g); unlink(p.c_str()); mode_t um = (mode_t)g.u(0100) << g.u(4), was = umask(um & 0777); zpl_file f; memset(&f, 0x5a, sizeof f); int how = (int)g.u(4); bool before = g.boolean(); mode_t keep = g.boolean() ? 0640 : 0755; if (before) { spit(p, d); chmod(p.c_str(), keep); } g.note("umask %03o, way %d", (unsigned)(um & 0777), how); if (d.size() >= 20) g.nontrivial();
    static const zpl_file_mode modes[] = {ZPL_FILE_MODE_WRITE, ZPL_FILE_MODE_APPEND | ZPL_FILE_MODE_RW, ZPL_FILE_MODE_WRITE | ZPL_FILE_MODE_RW}; zpl_file_error e = how < 3 ? zpl_file_open_mode(&f, modes[how], p.c_str()) : zpl_file_create(&f, p.c_str()); umask(was); REQUIRE(e == ZPL_FILE_ERROR_NONE, "creating gives error %d", e);
    struct stat st; REQUIRE(!stat(p.c_str(), &st), "no file"); mode_t want = before ? keep : 0666 & ~um; REQUIRE((st.st_mode & 07777) == want, "the file has permissions %o, expected %o", (unsigned)st.st_mode & 07777, (unsigned)want); REQUIRE(zpl_file_close(&f) == ZPL_FILE_ERROR_NONE, "close"); chmod(p.c_str(), 0644); spit(p, d);
    // a handle of the system, connected
    int fd = open(p.c_str(), O_RDWR); REQUIRE(fd >= 0, "open"); size_t at = g.u(d.size() + 1); lseek(fd, (off_t)at, SEEK_SET); zpl_file h; memset(&h, g.boolean() ? 0 : 0x5a, sizeof h); h.is_temp = 0; zpl_file_connect_handle(&h, (void *)(intptr_t)fd); REQUIRE(!h.filename && !h.dir && !*zpl_file_name(&h), "a connected file has a name"); REQUIRE(zpl_file_tell(&h) == (zpl_i64)at && zpl_file_size(&h) == (zpl_i64)d.size(), "the connected file is at %ld of %ld, expected %zu of %zu", (long)zpl_file_tell(&h), (long)zpl_file_size(&h), at, d.size());
    Exact b(d.size() - at, 0x77); REQUIRE(zpl_file_read(&h, b.p, (zpl_isize)(d.size() - at)) && !memcmp(b.p, d.data() + at, d.size() - at), "reading the connected file gives other bytes"); std::string more = g.bytes(g.size(30)); Exact mo(more); REQUIRE(zpl_file_write(&h, mo.p, (zpl_isize)more.size()), "writing to the connected file failed"); REQUIRE(slurp(p) == d + more, "the file does not hold what was written"); REQUIRE(zpl_file_close(&h) == ZPL_FILE_ERROR_NONE && fcntl(fd, F_GETFD) == -1, "closing the connected file left the handle open"); unlink(p.c_str());
}
// Temporary files: writable, readable, nowhere in the file system, independent of each other, and nothing of them (descriptor, memory) is left when they are closed.
#include <sanitizer/allocator_interface.h>
PROPERTY(temporary_files, 4000, 60000, "at least 2 files open at once, one of at least 20 bytes") {
    auto round = [&](bool plain) { std::vector<std::pair<zpl_file, std::string>> fs; bool long_one = false; size_t most = 0;
        for (size_t k = 0, n = plain ? 4 : 2 + g.u(12); k < n; k++) {
            if (fs.empty() || plain || g.u(3)) { zpl_file f; memset(&f, 0x5a, sizeof f); REQUIRE(zpl_file_temp(&f) == ZPL_FILE_ERROR_NONE, "no temporary file"); struct stat st; REQUIRE(!fstat((int)f.fd.i, &st) && S_ISREG(st.st_mode) && st.st_size == 0, "a new temporary file is no empty file"); REQUIRE(!zpl_file_has_changed(&f), "a temporary file is said to have changed"); std::string d = plain ? "some text" : content(g); REQUIRE(zpl_file_write(&f, d.data(), (zpl_isize)d.size()), "writing failed"); long_one |= d.size() >= 20; fs.push_back({f, d}); }
            else { size_t i = g.u(fs.size()); REQUIRE(zpl_file_close(&fs[i].first) == ZPL_FILE_ERROR_NONE, "close"); fs.erase(fs.begin() + (long)i); }
            most = std::max(most, fs.size()); for (auto &f : fs) { Exact b(f.second.size(), 0x77); REQUIRE(zpl_file_size(&f.first) == (zpl_i64)f.second.size() && zpl_file_read_at(&f.first, b.p, (zpl_isize)f.second.size(), 0) && !memcmp(b.p, f.second.data(), f.second.size()), "one of %zu temporary files holds other bytes", fs.size()); } }
        for (auto &f : fs) { int fd = (int)f.first.fd.i; REQUIRE(zpl_file_close(&f.first) == ZPL_FILE_ERROR_NONE, "close"); REQUIRE(fcntl(fd, F_GETFD) == -1, "closing left the descriptor open"); } return most >= 2 && long_one; };
    bool nt = round(false); round(true); int fd0 = dup(0); size_t before = __sanitizer_get_current_allocated_bytes(); round(true); round(true); size_t after = __sanitizer_get_current_allocated_bytes(); int fd1 = dup(0); close(fd0); close(fd1);
    REQUIRE(fd1 == fd0 + 1, "descriptors stayed open"); REQUIRE(after <= before, "%zu bytes stayed in use after 8 temporary files were closed", after - before); if (nt) g.nontrivial();
}
