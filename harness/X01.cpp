// X01: command-line options are compiled to what the arguments say
// @fuzz-quick 5
// @fuzz-thorough 120
#include "treelib.hpp"
struct Opt { std::string name, lname, desc; bool has_name, has_lname; int type; bool met = false; std::string text; i64 i = 0; double f = 0; bool vague = false; };
struct Err { int type; std::string val; bool operator==(const Err &o) const { return type == o.type && val == o.val; } };
static std::string word(Gen &g, size_t max) { std::string s(1, g.pickc("abfn")); size_t n = g.size(max - 1); for (size_t k = 0; k < n; k++) s += g.pickc("abfnoX09-_"); return s; }
static std::string number(Gen &g, bool real, bool neg) { if (!real) return std::to_string(neg ? g.i64any() : (i64)(g.u64any() >> 1)); char b[64]; snprintf(b, sizeof b, "%.*f", (int)g.u(6), (neg && g.boolean() ? -1 : 1) * (double)g.range(0, 1000000) / 64); return b; }
// texts that are no numbers set a numeric option to something unspecified
static bool numeral(const std::string &s, bool real) { size_t i = s.size() && s[0] == '-', dots = 0, digits = 0; for (; i < s.size(); i++) if (isdigit((unsigned char)s[i])) digits++; else if (s[i] == '.' && real && digits && i + 1 < s.size()) dots++; else return false; if (!digits || dots > 1) return false; errno = 0; if (!real) strtoll(s.c_str(), 0, 10); return errno == 0; }
struct Case { std::vector<Opt> opts; std::vector<int> pos; std::vector<std::string> args; };
static bool is_name(char c) { return isalnum((unsigned char)c) || c == '-' || c == '_'; }
// the notation: -s VALUE, -s=VALUE, --long VALUE, --long=VALUE, -flag, --flag, and positionals in the order of their registration
static void reference(Case &c, std::vector<Err> &errs, bool &filled) {
    std::vector<int> pos = c.pos; auto set = [&](int k, const std::string &v) { Opt &o = c.opts[k]; o.met = true; o.vague = !numeral(v, o.type == ZPL_OPTS_FLOAT); if (o.type == ZPL_OPTS_STRING) o.text = v; else if (o.type == ZPL_OPTS_INT) o.i = strtoll(v.c_str(), 0, 10); else if (o.type == ZPL_OPTS_FLOAT) o.f = strtod(v.c_str(), 0); auto it = std::find(pos.begin(), pos.end(), k); if (it != pos.end()) pos.erase(it); };
    for (size_t a = 0; a < c.args.size(); a++) {
        std::string s = c.args[a]; if (s.empty()) continue; s.erase(0, std::min(s.find_first_not_of(" \t"), s.size()));
        if (!s.empty() && s[0] == '-') {
            bool lng = s.size() > 1 && s[1] == '-'; std::string r = s.substr(lng ? 2 : 1); size_t e = 0; while (e < r.size() && is_name(r[e])) e++; std::string nm = r.substr(0, e); int k = -1; for (size_t q = 0; q < c.opts.size() && k < 0; q++) if (lng ? c.opts[q].has_lname && c.opts[q].lname == nm : c.opts[q].has_name && c.opts[q].name == nm) k = (int)q;
            if (k < 0) { errs.push_back({ZPL_OPTS_ERR_OPTION, r}); continue; }
            bool flag = c.opts[k].type == ZPL_OPTS_FLAG;
            if (e < r.size()) { if (flag) errs.push_back({ZPL_OPTS_ERR_EXTRA_VALUE, nm}); else set(k, r.substr(e + 1)); continue; }
            bool next = a + 1 < c.args.size() && !(c.args[a + 1].size() && c.args[a + 1][0] == '-');
            if (flag) { if (next && pos.empty()) errs.push_back({ZPL_OPTS_ERR_EXTRA_VALUE, nm}); else c.opts[k].met = true; }
            else if (next) set(k, c.args[++a]); else errs.push_back({ZPL_OPTS_ERR_MISSING_VALUE, nm});
        } else if (pos.size()) { int k = pos.front(); pos.erase(pos.begin()); set(k, s); }
        else errs.push_back({ZPL_OPTS_ERR_VALUE, s});
    }
    filled = pos.empty();
}
static Case gen_case(Gen &g) {
    Case c; size_t n = 1 + g.size(g.u(4) ? 5 : 14); std::set<std::string> sn, ln; sn.insert(""); ln.insert("");
    for (size_t k = 0; k < n; k++) { Opt o; o.type = (int)g.u(4); o.name = word(g, 3); o.lname = word(g, 8); o.desc = word(g, 12); o.has_name = g.u(6) && sn.insert(o.name).second; o.has_lname = (g.u(8) || !o.has_name) && ln.insert(o.lname).second; if (!o.has_name && !o.has_lname) continue; if (o.has_lname && o.type != ZPL_OPTS_FLAG && g.u(3) == 0) { c.pos.push_back((int)c.opts.size()); } c.opts.push_back(o); }
    if (c.pos.size() > 1 && g.boolean()) std::swap(c.pos[0], c.pos[c.pos.size() - 1]);
    size_t args = g.size(10); std::vector<int> todo = c.pos;
    for (size_t k = 0; k < args && c.opts.size(); k++) {
        int q = (int)g.u(c.opts.size()); Opt &o = c.opts[q]; auto value = [&](int type, bool neg) -> std::string { if (type == ZPL_OPTS_INT || type == ZPL_OPTS_FLOAT) return number(g, type == ZPL_OPTS_FLOAT, neg); std::string v = g.str(9, "ab =\"'\\,\t9:-"); return !neg && v.size() && (v[0] == '-') ? "v" + v : v; };
        std::string opt = o.has_name && (!o.has_lname || g.boolean()) ? "-" + o.name : "--" + o.lname;
        switch (g.u(9)) {
            case 0: case 1: c.args.push_back(opt); if (o.type != ZPL_OPTS_FLAG) c.args.push_back(value(o.type, false)); break;
            case 2: case 3: c.args.push_back(o.type == ZPL_OPTS_FLAG ? opt : opt + "=" + value(o.type, true)); break;
            case 4: if (todo.size()) { std::string v = value(c.opts[todo[0]].type, false); if (v.find_first_not_of(" \t") == std::string::npos || v[v.find_first_not_of(" \t")] == '-') v = "7"; c.args.push_back(v); todo.erase(todo.begin()); break; } /* fallthrough */
            case 5: c.args.push_back(std::string(g.u(4) == 0 ? " " : "") + opt); break;                                   // value may be missing
            case 6: c.args.push_back((g.boolean() ? "-" : "--") + word(g, 4)); break;                                     // perhaps unknown, or the other kind of name
            case 7: c.args.push_back(g.boolean() ? std::to_string(g.u(100)) : opt + "=" + std::to_string(g.u(100))); break;  // perhaps one too many
            default: c.args.push_back(g.u(3) ? "-" : g.boolean() ? "--" : ""); break;
        }
    }
    return c;
}
struct Built { zpl_opts o; Meter m; std::vector<Exact *> names; std::vector<Exact *> argv_s; std::vector<char *> argv; ~Built() { for (auto e : names) delete e; for (auto e : argv_s) delete e; } const char *keep(const std::string &s) { names.push_back(new Exact(s, true)); return (const char *)names.back()->p; } };
static void build(Gen &g, Built &b, const Case &c) {
    zpl_opts_init(&b.o, meter_allocator(b.m), b.keep("app")); std::vector<bool> added(c.opts.size(), false); size_t next_pos = 0; bool interleave = g.boolean();
    auto flush = [&] { while (next_pos < c.pos.size() && added[c.pos[next_pos]]) zpl_opts_positional_add(&b.o, b.keep(c.opts[c.pos[next_pos++]].lname)); };
    for (size_t k = 0; k < c.opts.size(); k++) { auto &o = c.opts[k]; zpl_opts_add(&b.o, o.has_name ? b.keep(o.name) : nullptr, o.has_lname ? b.keep(o.lname) : nullptr, b.keep(o.desc), (zpl_u8)o.type); added[k] = true; if (interleave) flush(); } flush();
    b.argv_s.push_back(new Exact("app", true)); for (auto &s : c.args) b.argv_s.push_back(new Exact(s, true)); for (auto e : b.argv_s) b.argv.push_back((char *)e->p); b.argv.push_back(nullptr);
}
static std::string printed(void (*f)(zpl_opts *), zpl_opts *o) {               // what f writes to the standard output
    fflush(stdout); static int fd = memfd_create("out", 0); (void)!ftruncate(fd, 0); lseek(fd, 0, SEEK_SET); int old = dup(1); dup2(fd, 1); f(o); dup2(old, 1); close(old); std::string s((size_t)lseek(fd, 0, SEEK_END), 0); (void)!pread(fd, &s[0], s.size(), 0); return s;
}
static const char *tn[] = {"value", "option", "extra value", "missing value"};
PROPERTY(arguments, 200000, 5000000, "at least 3 arguments, setting at least 2 options") {
    Case c = gen_case(g); std::string all; for (auto &o : c.opts) all += " [" + (o.has_name ? "-" + o.name : "") + (o.has_lname ? " --" + o.lname : "") + " " + std::to_string(o.type) + "]"; for (int p : c.pos) all += " <" + c.opts[p].lname + ">"; all += " :"; for (auto &s : c.args) all += " " + esc(s); g.note("%s", all.c_str());
    { Built b; build(g, b, c); REQUIRE(zpl_opts_positionals_filled(&b.o) == (c.pos.empty() ? 1 : 0), "positionals are reported wrongly before any argument");
    zpl_b32 ok = zpl_opts_compile(&b.o, (int)b.argv.size() - 1, b.argv.data()); std::vector<Err> errs; bool filled; reference(c, errs, filled); int met = 0;
    for (size_t k = 0; k < c.opts.size(); k++) {
        auto &o = c.opts[k]; auto *e = b.o.entries + k; REQUIRE(!e->met == !o.met, "option %zu is reported as %sgiven", k, e->met ? "" : "not "); met += o.met; if (!o.has_lname) { if (o.met && o.type == ZPL_OPTS_STRING) REQUIRE(o.text == e->text, "option %zu is %s, expected %s", k, esc(e->text).c_str(), esc(o.text).c_str()); if (o.met && o.type == ZPL_OPTS_INT && !o.vague) REQUIRE(e->integer == o.i, "option %zu is %lld, expected %lld", k, (long long)e->integer, (long long)o.i); continue; }
        Exact n(o.lname, true); REQUIRE(!zpl_opts_has_arg(&b.o, (char *)n.p) == !o.met, "option %s: wrong presence", o.lname.c_str());
        if (o.type == ZPL_OPTS_STRING) { char fb[] = "fallback"; char *v = zpl_opts_string(&b.o, (char *)n.p, fb); if (!o.met) REQUIRE(v == fb, "option %s was not given but is %s", o.lname.c_str(), esc(v).c_str()); else REQUIRE(o.text == v, "option %s is %s, expected %s", o.lname.c_str(), esc(v).c_str(), esc(o.text).c_str()); }
        if (o.type == ZPL_OPTS_INT) { zpl_i64 v = zpl_opts_integer(&b.o, (char *)n.p, 4711); REQUIRE((o.met && o.vague) || v == (o.met ? o.i : 4711), "option %s is %lld, expected %lld", o.lname.c_str(), (long long)v, (long long)(o.met ? o.i : 4711)); }
        if (o.type == ZPL_OPTS_FLOAT) { double v = zpl_opts_real(&b.o, (char *)n.p, 47.5), w = o.met ? o.f : 47.5; REQUIRE((o.met && o.vague) || near(v, w, 1e-12), "option %s is %.17g, expected %.17g", o.lname.c_str(), v, w); }
    }
    Exact none("nosuchoption", true); REQUIRE(!zpl_opts_has_arg(&b.o, (char *)none.p) && zpl_opts_integer(&b.o, (char *)none.p, 3) == 3, "an undeclared option is reported as given");
    for (size_t k = 0; k < (size_t)zpl_array_count(b.o.errors) || k < errs.size(); k++) { REQUIRE(k < errs.size(), "error %zu (%s %s) is reported without cause", k, tn[b.o.errors[k].type & 3], esc(b.o.errors[k].val).c_str()); REQUIRE(k < (size_t)zpl_array_count(b.o.errors), "an error (%s %s) is not reported", tn[errs[k].type], esc(errs[k].val).c_str()); Err got{b.o.errors[k].type, b.o.errors[k].val}; REQUIRE(got == errs[k], "error %zu is %s %s, expected %s %s", k, tn[got.type & 3], esc(got.val).c_str(), tn[errs[k].type], esc(errs[k].val).c_str()); }
    REQUIRE(!ok == !errs.empty(), "compiling reports %s with %zu errors", ok ? "success" : "failure", errs.size()); REQUIRE(!zpl_opts_positionals_filled(&b.o) == !filled, "positionals are reported as %sfilled", filled ? "not " : "");
    if (g.u(16) == 0) { std::string h = printed(zpl_opts_print_errors, &b.o); size_t at = 0; for (auto &e : errs) { size_t w = h.find("ERROR: ", at); REQUIRE(w != std::string::npos, "the list of errors lacks an entry: %s", esc(h).c_str()); size_t v = h.find("\"" + e.val + "\"\n", w); REQUIRE(v != std::string::npos, "the list of errors does not name %s: %s", esc(e.val).c_str(), esc(h).c_str()); at = w + 7; } REQUIRE(errs.size() || h.empty(), "errors are listed without cause"); }
    if (g.u(16) == 0) { std::string h = printed(zpl_opts_print_help, &b.o); for (auto &o : c.opts) { std::string l = (o.has_name ? "-" + o.name : "") + (o.has_name && o.has_lname ? ", " : "") + (o.has_lname ? "--" + o.lname : "") + ": " + o.desc; REQUIRE(h.find("\t" + l + "\n") != std::string::npos, "the help lacks a line %s: %s", l.c_str(), esc(h).c_str()); } std::string use = h.substr(0, h.find('\n')); REQUIRE(use.find("app") != std::string::npos, "the help lacks the application's name"); size_t listed = std::count(use.begin(), use.end(), '['); REQUIRE(listed == c.pos.size(), "the usage line lists %zu positionals, not %zu: %s", listed, c.pos.size(), esc(use).c_str()); size_t at = 0; for (int p : c.pos) { at = use.find("[" + c.opts[p].lname + "]", at); REQUIRE(at != std::string::npos, "the usage line lacks %s, or not in the order the positionals are filled in: %s", c.opts[p].lname.c_str(), esc(use).c_str()); } }
    zpl_opts_free(&b.o); REQUIRE(b.m.live == 0, "%ld blocks leak", b.m.live); if (c.args.size() >= 3 && met >= 2) g.nontrivial(); }
}
PROPERTY(any_arguments, 100000, 2500000, "at least 2 arguments of which one is an option with text after its name") {
    Case c = gen_case(g); size_t n = g.size(6); bool odd = false; for (size_t k = 0; k < n; k++) { std::string s = g.u(3) ? (g.boolean() ? "-" : "--") + (c.opts.size() && g.boolean() ? (g.boolean() ? c.opts[g.u(c.opts.size())].name : c.opts[g.u(c.opts.size())].lname) : word(g, 4)) : ""; std::string t = g.str(6, std::string("=-:\\ \"a9.\x80\xff", 11)); odd |= s.size() && t.size(); s += t; c.args.insert(c.args.begin() + (long)g.u(c.args.size() + 1), s); }
    std::string all; for (auto &s : c.args) all += " " + esc(s); g.note("%s", all.c_str()); Built b; build(g, b, c); zpl_b32 ok = zpl_opts_compile(&b.o, (int)b.argv.size() - 1, b.argv.data()); REQUIRE(!ok == (zpl_array_count(b.o.errors) > 0), "success and errors contradict each other");
    for (size_t k = 0; k < c.opts.size(); k++) if (b.o.entries[k].met && b.o.entries[k].type == ZPL_OPTS_STRING) REQUIRE(b.o.entries[k].text && strlen(b.o.entries[k].text) == (size_t)zpl_string_length(b.o.entries[k].text), "option %zu has no proper text", k);
    if (g.u(16) == 0) printed(zpl_opts_print_errors, &b.o); zpl_opts_free(&b.o); REQUIRE(b.m.live == 0, "%ld blocks leak", b.m.live); if (c.args.size() >= 2 && odd) g.nontrivial();
}
