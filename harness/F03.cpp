// F03: path and directory functions against std::filesystem
// @assume names contain no newline or carriage return (listings are newline-separated); moving does not replace an existing target (as on Windows); a path that cannot be resolved is its own full name.
#include "zh.hpp"
#include <dirent.h>
#include <filesystem>
#include <fcntl.h>
#include <sys/socket.h>
#include <sys/un.h>
namespace fs = std::filesystem; using std::string;
static string slurp(const string &p) { string s; FILE *f = fopen(p.c_str(), "rb"); if (!f) return "<missing>"; char b[8192]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); return s; }
static void spit(const string &p, const string &s) { FILE *f = fopen(p.c_str(), "wb"); if (!f) return; fwrite(s.data(), 1, s.size(), f); fclose(f); }
static int open_fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static string name(Gen &g) { switch (g.u(6)) { case 0: return string(1, "abcd"[g.u(4)]); case 1: return "." + string(1 + g.u(3), "a."[g.u(2)]) + "x"; case 2: return "..." + g.str(2, "ab"); case 3: return "f " + g.str(5, "ab. ") + "z"; case 4: return string(1 + g.u(150), 'n'); default: return string(1, "abcd"[g.u(4)]) + "." + g.str(4, "tx."); } }
static void fill(Gen &g, const string &dir, int depth, int &left, std::vector<string> &files, std::vector<string> &dirs) {
    size_t n = g.u(5); for (size_t i = 0; i < n && left > 0; i++) { left--; string p = dir + "/" + name(g); if (fs::exists(fs::symlink_status(p))) continue; int k = (int)g.u(8); std::error_code ec;
        if (k < 3 && depth < 4) { if (mkdir(p.c_str(), 0755)) continue; dirs.push_back(p); fill(g, p, depth + 1, left, files, dirs); } else if (k == 3 && !files.empty()) fs::create_symlink(files[g.u(files.size())], p, ec); else if (k == 4 && !dirs.empty()) fs::create_directory_symlink(dirs[g.u(dirs.size())], p, ec); else { spit(p, g.bytes(g.size(60))); files.push_back(p); } } }
static std::multiset<string> lines(const char *s) { std::multiset<string> r; string t = s; size_t i = 0; while (i < t.size()) { size_t j = t.find('\n', i); if (j == string::npos) { r.insert("<unterminated>"); break; } r.insert(t.substr(i, j - i)); i = j + 1; } return r; }
static void walk(const string &d, bool rec, std::multiset<string> &out) { for (auto &e : fs::directory_iterator(d)) { string p = d + "/" + e.path().filename().string(); out.insert(p); if (rec && e.symlink_status().type() == fs::file_type::directory) walk(p, true, out); } }
// an allocator that insists on getting back its own blocks only
static std::set<void *> owned; static ZPL_ALLOCATOR_PROC(tracked) { if (type == ZPL_ALLOCATION_FREE) { if (old_memory && !owned.erase(old_memory)) pbt::fail("the allocator is given memory that is not its own"); } void *r = zpl_heap_allocator_proc(allocator_data, type, size, alignment, old_memory, old_size, flags); if ((type == ZPL_ALLOCATION_ALLOC || type == ZPL_ALLOCATION_RESIZE) && r) { if (type == ZPL_ALLOCATION_RESIZE) owned.erase(old_memory); owned.insert(r); } return r; }
static zpl_u8 want_type(const string &p) { std::error_code ec; auto st = fs::status(p, ec); return !fs::exists(st) ? ZPL_DIR_TYPE_UNKNOWN : fs::is_directory(st) ? ZPL_DIR_TYPE_FOLDER : ZPL_DIR_TYPE_FILE; }
static void check_dirinfo(zpl_dir_info *di, const string &dir) { std::multiset<string> want, got; walk(dir, false, want); REQUIRE(dir == di->fullpath, "directory info of %s is about %s", dir.c_str(), di->fullpath); for (int i = 0; i < zpl_array_count(di->entries); i++) { zpl_dir_entry *e = &di->entries[i]; got.insert(e->filename); REQUIRE(e->type == want_type(e->filename), "entry %s has type %d", e->filename, e->type); } REQUIRE(got == want, "directory info of %s lists %zu entries, expected %zu", dir.c_str(), got.size(), want.size()); }
PROPERTY(listing, 12000, 250000, "a tree with at least 2 directory levels and 5 entries") {
    string root = scratch() + "/t"; fs::remove_all(root); mkdir(root.c_str(), 0755); int left = 30; std::vector<string> files, dirs; dirs.push_back(root); fill(g, root, 0, left, files, dirs); if (g.u(6) == 0) { int s = socket(AF_UNIX, SOCK_STREAM, 0); struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; string p = root + "/sock"; if (p.size() < sizeof a.sun_path) { strcpy(a.sun_path, p.c_str()); bind(s, (struct sockaddr *)&a, sizeof a); } close(s); }
    std::multiset<string> all; walk(root, true, all); if (dirs.size() >= 2 && all.size() >= 5) g.nontrivial(); if (g.verbose) for (auto &p : all) g.note("%s", p.c_str() + root.size());
    int fds = open_fds(); zpl_allocator al = zpl_heap_allocator(); al.proc = tracked; owned.clear();
    for (int rec = 0; rec < 2; rec++) { std::multiset<string> want; string d = rec ? root : dirs[g.u(dirs.size())]; walk(d, rec, want); zpl_string s = zpl_path_dirlist(al, d.c_str(), rec); auto got = lines(s); for (auto &x : want) REQUIRE(got.count(x) == 1, "listing (recursive %d) misses %s", rec, x.c_str()); REQUIRE(got == want, "listing (recursive %d) has %zu entries, expected %zu", rec, got.size(), want.size()); zpl_string_free(s); } REQUIRE(owned.empty(), "listing left memory behind");
    { zpl_string s = zpl_path_dirlist(al, (root + "/missing").c_str(), 1); REQUIRE(zpl_string_length(s) == 0, "listing of a missing directory gives %s", s); zpl_string_free(s); }
    for (auto &p : all) { REQUIRE(zpl_fs_exists(p.c_str()) == (access(p.c_str(), F_OK) == 0), "exists(%s)", p.c_str()); zpl_u8 t = zpl_fs_get_type(p.c_str()); REQUIRE(t == want_type(p), "type of %s is %d, expected %d", p.c_str(), t, want_type(p)); } string miss = root + "/missing"; REQUIRE(!zpl_fs_exists(miss.c_str()) && zpl_fs_get_type(miss.c_str()) == ZPL_DIR_TYPE_UNKNOWN, "a missing file is reported present");
    zpl_dir_info di; string d = dirs[g.u(dirs.size())]; zpl_dirinfo_init(&di, d.c_str()); check_dirinfo(&di, d);
    for (int i = 0; i < zpl_array_count(di.entries); i++) if (g.boolean()) { for (int k = 0; k < 1 + (int)g.u(2); k++) zpl_dirinfo_step(&di.entries[i]); zpl_dir_info *sub = di.entries[i].dir_info; string f = di.entries[i].filename; check_dirinfo(sub, di.entries[i].type == ZPL_DIR_TYPE_FOLDER ? f : f.substr(0, f.rfind('/'))); } zpl_dirinfo_free(&di);
    if (!files.empty()) { string f = files[g.u(files.size())], dir = f.substr(0, f.rfind('/')), base = f.substr(f.rfind('/') + 1); int cwd = -1; bool rel = g.boolean(); if (rel) { cwd = open(".", O_RDONLY); if (chdir(dir.c_str())) {} } zpl_file zf; zpl_file_error e = zpl_file_open(&zf, rel ? base.c_str() : f.c_str()); REQUIRE(e == ZPL_FILE_ERROR_NONE, "open gives %d", e);
        for (int k = 0; k < 1 + (int)g.u(2); k++) { zpl_file_dirinfo_refresh(&zf); REQUIRE(zf.dir && zf.dir->dir_info, "no directory info"); if (rel) { std::multiset<string> want, got; walk(".", false, want); for (int i = 0; i < zpl_array_count(zf.dir->dir_info->entries); i++) got.insert(zf.dir->dir_info->entries[i].filename); REQUIRE(got == want, "info of the working directory lists %zu entries, expected %zu", got.size(), want.size()); } else check_dirinfo(zf.dir->dir_info, dir); }
        zpl_file_close(&zf); if (rel) { if (fchdir(cwd)) {} close(cwd); } }
    REQUIRE(open_fds() == fds, "%d descriptors left open", open_fds() - fds); fs::remove_all(root);
}
PROPERTY(copy_move_remove, 30000, 500000, "an existing source with content") {
    string root = scratch() + "/c"; fs::remove_all(root); mkdir(root.c_str(), 0755); string a = root + "/a", b = root + (g.u(6) ? "/b" : g.boolean() ? "/a" : "/none/b"); bool ea = g.u(6) != 0, eb = g.boolean(); string ca = g.bytes(g.size(300)), cb = g.bytes(g.size(300)); if (g.u(40) == 0) ca.resize(300000, 'z'); int fds = open_fds();
    if (ea) spit(a, ca); if (b == root + "/none/b") eb = false; else if (b == a) { eb = ea; cb = ca; } else if (eb) spit(b, cb); if (ea && !ca.empty()) g.nontrivial(); mode_t mode = g.boolean() ? 0644 : 0755; umask(0); if (ea) chmod(a.c_str(), mode); bool can = ea && b != root + "/none/b"; std::error_code ec;
    switch (g.u(5)) {
    case 0: case 1: { bool fie = g.boolean(); g.note("copy %s -> %s (exists %d/%d, fail_if_exists %d), %zu bytes over %zu", "a", b.c_str() + root.size(), ea, eb, fie, ca.size(), cb.size()); bool r = zpl_fs_copy(a.c_str(), b.c_str(), fie); bool want = can && !(fie && eb); REQUIRE(r == want, "copy gives %d, expected %d", r, want); if (ea) REQUIRE(slurp(a) == ca, "the source changed"); if (want) { REQUIRE(slurp(b) == ca, "the copy holds %s, expected %s", esc(slurp(b)).c_str(), esc(ca).c_str()); if (!eb) { struct stat st; stat(b.c_str(), &st); REQUIRE((st.st_mode & 0777) == mode, "the copy has mode %o", st.st_mode); } } else if (eb) REQUIRE(slurp(b) == cb, "a refused copy changed the target"); else REQUIRE(access(b.c_str(), F_OK), "a refused copy created the target"); break; }
    case 2: { g.note("move (exists %d/%d)", ea, eb); bool r = zpl_fs_move(a.c_str(), b.c_str()), want = can && !eb; REQUIRE(r == want, "move gives %d, expected %d", r, want); if (want) REQUIRE(slurp(b) == ca && access(a.c_str(), F_OK), "after a move the target holds %s, the source %s", esc(slurp(b)).c_str(), access(a.c_str(), F_OK) ? "is gone" : "is still there"); else { if (ea) REQUIRE(slurp(a) == ca, "a refused move changed the source"); if (eb) REQUIRE(slurp(b) == cb, "a refused move changed the target"); } break; }
    case 3: { bool r = zpl_fs_remove(a.c_str()); g.note("remove (exists %d)", ea); REQUIRE(r == ea, "remove gives %d", r); REQUIRE(access(a.c_str(), F_OK), "the file is still there"); if (b != a && eb) REQUIRE(slurp(b) == cb, "another file changed"); break; }
    default: { time_t t = (time_t)g.u(g.boolean() ? 3000 : 2000000000); g.note("last write time %ld", (long)t); auto touch = [&](time_t x) { struct timespec ts[2] = {{x, 0}, {x, 999999999}}; utimensat(AT_FDCWD, a.c_str(), ts, 0); }; if (!ea) { REQUIRE(zpl_fs_last_write_time(a.c_str()) == 0, "a missing file has a last write time"); break; } touch(t); REQUIRE(zpl_fs_last_write_time(a.c_str()) == (zpl_file_time)t, "last write time %lu, expected %ld", (unsigned long)zpl_fs_last_write_time(a.c_str()), (long)t);
        zpl_file f; REQUIRE(zpl_file_open(&f, a.c_str()) == ZPL_FILE_ERROR_NONE, "open"); zpl_file_has_changed(&f); for (int i = 0; i < 4; i++) { bool ch = g.boolean(); if (ch) touch(t += 1 + g.u(5)); REQUIRE(!!zpl_file_has_changed(&f) == ch, "has_changed reports %d after %s", !ch, ch ? "a change" : "no change"); } zpl_file_close(&f); } }
    REQUIRE(open_fds() == fds, "%d descriptors left open", open_fds() - fds); fs::remove_all(root);
}
PROPERTY(directories, 30000, 500000, "creating at least 2 levels") {
    string root = scratch() + "/d"; fs::remove_all(root); mkdir(root.c_str(), 0755); size_t n = 1 + g.u(5); string rel; for (size_t i = 0; i < n; i++) rel += string(1 + (g.u(6) == 0), '/') + name(g); if (g.u(4) == 0) rel += "/"; string p = root + rel; g.note("mkdir -p %s", rel.c_str()); if (n >= 2) g.nontrivial(); if (g.boolean()) fs::create_directories(root + "/" + name(g));
    REQUIRE(zpl_path_mkdir_recursive(p.c_str(), 0755) == 0, "mkdir_recursive failed"); REQUIRE(fs::is_directory(p), "%s is no directory", p.c_str()); REQUIRE(zpl_path_mkdir(p.c_str(), 0755) == ZPL_FILE_ERROR_EXISTS, "mkdir over a directory gives another error"); while (p.back() == '/') p.pop_back();
    string sub = p + "/" + name(g); bool isf = g.boolean(); if (isf) spit(sub, "x"); else REQUIRE(zpl_path_mkdir(sub.c_str(), 0755) == ZPL_FILE_ERROR_NONE && fs::is_directory(sub), "mkdir"); REQUIRE(zpl_path_rmdir(p.c_str()) == ZPL_FILE_ERROR_NOT_EMPTY, "rmdir of a non-empty directory gives another error"); REQUIRE(fs::exists(sub), "rmdir removed a directory that is not empty");
    if (isf) { REQUIRE(zpl_path_rmdir(sub.c_str()) != ZPL_FILE_ERROR_NONE && fs::exists(sub), "rmdir removed a file"); REQUIRE(zpl_path_mkdir(sub.c_str(), 0755) == ZPL_FILE_ERROR_EXISTS, "mkdir over a file"); unlink(sub.c_str()); } else REQUIRE(zpl_path_rmdir(sub.c_str()) == ZPL_FILE_ERROR_NONE && !fs::exists(sub), "rmdir of an empty directory");
    REQUIRE(zpl_path_rmdir(p.c_str()) == ZPL_FILE_ERROR_NONE && !fs::exists(p), "rmdir"); REQUIRE(zpl_path_rmdir(p.c_str()) == ZPL_FILE_ERROR_NOT_EXISTS, "rmdir of a missing directory gives another error"); REQUIRE(zpl_path_mkdir((root + "/" + string(300, 'n')).c_str(), 0755) == ZPL_FILE_ERROR_NAME_TOO_LONG, "over-long name"); REQUIRE(zpl_path_mkdir_recursive(string(5000, 'x').c_str(), 0755) == -1, "over-long path"); fs::remove_all(root);
}
PROPERTY(paths, 400000, 6000000, "a path with a separator and a dot") {
    string p = g.boolean() ? g.str(30, "a/.b") : g.str(60, "ab/.. c\xe9\\:~"); Exact x(p, true); g.note("path %s", esc(p).c_str()); if (p.find('/') != string::npos && p.find('.') != string::npos) g.nontrivial();
    size_t sl = p.rfind('/'), b0 = sl == string::npos ? 0 : sl + 1; string base = p.substr(b0); size_t dot = base.rfind('.'); REQUIRE(base == zpl_path_base_name(x.c()), "base name %s", zpl_path_base_name(x.c())); const char *e = zpl_path_extension(x.c()); REQUIRE((dot == string::npos) == !e, "extension %s", e ? e : "(none)"); if (e) REQUIRE(base.substr(dot + 1) == e, "extension %s", e);
    REQUIRE(!!zpl_path_is_absolute(x.c()) == (!p.empty() && p[0] == '/'), "is_absolute"); REQUIRE(!!zpl_path_is_relative(x.c()) == !(!p.empty() && p[0] == '/'), "is_relative"); REQUIRE(!!zpl_path_is_root(x.c()) == (p == "/"), "is_root"); zpl_path_fix_slashes(x.c()); REQUIRE(p == x.c(), "fix_slashes changed the path");
}
PROPERTY(full_name, 30000, 400000, "an existing path reached through . or .. components") {
    string root = scratch() + "/n"; mkdir(root.c_str(), 0755); mkdir((root + "/x").c_str(), 0755); mkdir((root + "/x/y").c_str(), 0755); string p = root; for (size_t i = 0, n = g.u(6); i < n; i++) p += g.pick(std::vector<string>{"/.", "/..", "/n", "/x", "/y", "//", "/q"}); g.note("%s", p.c_str()); zpl_allocator al = zpl_heap_allocator(); al.proc = tracked; owned.clear();
    char *r = zpl_path_get_full_name(al, p.c_str()); char *w = realpath(p.c_str(), 0); REQUIRE(string(w ? w : p.c_str()) == r, "full name %s, expected %s", r, w ? w : p.c_str()); if (w && p.find("/.") != string::npos) g.nontrivial(); free(w); zpl_free(al, r); REQUIRE(owned.empty(), "memory left behind");
}
