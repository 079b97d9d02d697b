// N01: loopback sockets deliver bytes unchanged
// @workers 4
// @cpu-limit 60
// @wall-limit 60
// @assume loopback interface of this machine only (127.0.0.1, and ::1 where it exists), numeric hosts; amounts in flight stay below the kernel's buffers, so that nothing may be dropped
#include "zh.hpp"
#include <deque>
#include <thread>
#include <atomic>
#include <dirent.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
static int fd_count() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return 0; while (struct dirent *e = readdir(d)) n += e->d_name[0] != '.'; closedir(d); return n; }
struct Fds { std::vector<int> v; int add(int s) { if (s >= 0) v.push_back(s); return s; } void close(int s) { zpl_socket_close(s); for (auto &x : v) if (x == s) x = -1; } ~Fds() { for (int s : v) if (s >= 0) { struct linger l = {1, 0}; setsockopt(s, SOL_SOCKET, SO_LINGER, &l, sizeof l); ::close(s); } }     /* no TIME_WAIT left behind, so that ports stay available */ };
static bool have6() { static int h = -1; if (h < 0) { int s = ::socket(AF_INET6, SOCK_STREAM, 0); struct sockaddr_in6 a; memset(&a, 0, sizeof a); a.sin6_family = AF_INET6; a.sin6_addr = in6addr_loopback; h = s >= 0 && ::bind(s, (struct sockaddr *)&a, sizeof a) == 0; if (s >= 0) ::close(s); } return h; }
static int flags_of(Gen &g) { return (g.boolean() ? ZPL_SOCKET_NON_BLOCKING : 0) | (g.boolean() ? ZPL_SOCKET_NO_DELAY : 0); }
// what the kernel itself says about a socket's own and peer addresses
static std::string kern(int s, bool peer, int *port = 0) {
    struct sockaddr_storage a; socklen_t l = sizeof a; memset(&a, 0, sizeof a); if ((peer ? getpeername : getsockname)(s, (struct sockaddr *)&a, &l)) return "?";
    int p = ntohs(a.ss_family == AF_INET6 ? ((struct sockaddr_in6 *)&a)->sin6_port : ((struct sockaddr_in *)&a)->sin_port); if (port) *port = p;
    char b[80]; inet_ntop(a.ss_family, a.ss_family == AF_INET6 ? (void *)&((struct sockaddr_in6 *)&a)->sin6_addr : (void *)&((struct sockaddr_in *)&a)->sin_addr, b, sizeof b); return std::string(b) + " " + std::to_string(p);
}
static std::string shown(const zpl_socket_addr &z) {
    struct sockaddr_storage a; memset(&a, 0, sizeof a); memcpy(&a, z.data, std::min(sizeof a, sizeof z.data)); if (a.ss_family != AF_INET && a.ss_family != AF_INET6) return "(no address)";
    char b[80]; inet_ntop(a.ss_family, a.ss_family == AF_INET6 ? (void *)&((struct sockaddr_in6 *)&a)->sin6_addr : (void *)&((struct sockaddr_in *)&a)->sin_addr, b, sizeof b); return std::string(b) + " " + std::to_string(ntohs(a.ss_family == AF_INET6 ? ((struct sockaddr_in6 *)&a)->sin6_port : ((struct sockaddr_in *)&a)->sin_port));
}
static std::string payload(Gen &g, size_t n) { u64 s = g.u64any(); int style = (int)g.u(4); std::string r(n, 0); for (size_t i = 0; i < n; i++) r[i] = style == 0 ? (char)(i * 7 + (s & 255)) : style == 1 ? (char)(splitmix(s) & 255) : style == 2 ? 0 : (char)"ab\r\n\0\xff"[splitmix(s) % 6]; return r; }
static bool flag_nonblock(int s) { return (fcntl(s, F_GETFL) & O_NONBLOCK) != 0; }
static bool flag_nodelay(int s) { int v = 0; socklen_t l = sizeof v; getsockopt(s, 6 /* TCP */, 1 /* NODELAY */, &v, &l); return v != 0; }
static int bound(Fds &f, int proto, int fl, bool six) { int s = f.add(zpl_socket_create(proto, ZPL_SOCKET_BIND, (char)fl, six ? "::1" : "127.0.0.1", "0")); REQUIRE(s >= 0, "cannot bind a socket to the loopback address"); REQUIRE(kern(s, false).compare(0, six ? 4 : 10, six ? "::1 " : "127.0.0.1 ") == 0, "the socket is bound to %s, asked for the loopback address", kern(s, false).c_str()); return s; }
static void address_agrees(Gen &g, int s) {
    zpl_socket_addr a; memset(&a, 0xA5, sizeof a); REQUIRE(zpl_socket_get_address(s, &a) == 0, "get_address fails for a bound socket"); REQUIRE(shown(a) == kern(s, false), "get_address says %s, the socket is bound to %s", shown(a).c_str(), kern(s, false).c_str());
    if (!g.chance(1, 4)) return;
    Exact h(64, 0xA5), sv(32, 0xA5); bool nh = g.chance(1, 4), ns = !nh && g.chance(1, 4); if (shown(a)[0] == ':') { nh = true; ns = false; }
    { char rh[64], rs[32]; if (getnameinfo((struct sockaddr *)a.data, sizeof a, nh ? 0 : rh, nh ? 0 : 64, ns ? 0 : rs, ns ? 0 : 32, 0)) return; }        // this machine cannot name the address
    REQUIRE(zpl_socket_get_address_info(&a, nh ? 0 : h.c(), nh ? 0 : 64, ns ? 0 : sv.c(), ns ? 0 : 32) == 0, "get_address_info fails for %s", shown(a).c_str());
    if (!nh) REQUIRE(memchr(h.c(), 0, 64), "the host is not terminated"); if (!ns) REQUIRE(memchr(sv.c(), 0, 32), "the service is not terminated");
    if (!ns && isdigit((unsigned char)sv.c()[0])) REQUIRE(shown(a).substr(shown(a).find(' ') + 1) == sv.c(), "get_address_info reports port %s of %s", sv.c(), shown(a).c_str());
    if (!nh && isdigit((unsigned char)h.c()[0])) REQUIRE(shown(a).substr(0, shown(a).find(' ')) == h.c(), "get_address_info reports host %s of %s", h.c(), shown(a).c_str());
    size_t hs = 1 + g.u(8), ss = 1 + g.u(4); Exact h2(hs, 0xA5), s2(ss, 0xA5); int r = zpl_socket_get_address_info(&a, h2.c(), (zpl_i32)hs, s2.c(), (zpl_i32)ss); bool fits = !nh && !ns && strlen(h.c()) < hs && strlen(sv.c()) < ss; if (!nh && !ns) REQUIRE((r == 0) == fits, "get_address_info into %zu and %zu bytes returned %d for %s %s", hs, ss, r, h.c(), sv.c());
}
static int connected(Gen &g, Fds &f, int proto, int fl, int server) {
    int port = 0; std::string k = kern(server, false, &port), host = k.substr(0, k.find(' ')); Exact h(host, true), sv(std::to_string(port), true);
    int c = f.add(zpl_socket_create(proto, ZPL_SOCKET_CONNECT, (char)fl, h.c(), sv.c())); REQUIRE(c >= 0, "cannot connect to %s", k.c_str());
    REQUIRE(flag_nonblock(c) == !!(fl & ZPL_SOCKET_NON_BLOCKING), "flags %d: the socket %s", fl, flag_nonblock(c) ? "does not block" : "blocks"); if (proto == ZPL_SOCKET_TCP) REQUIRE(flag_nodelay(c) == !!(fl & ZPL_SOCKET_NO_DELAY), "flags %d: no-delay is %d", fl, flag_nodelay(c)); return c;
}
PROPERTY(streams, 6000, 60000, "at least two connections or directions carried data in chunks of other sizes than they were sent") {
    int before = fd_count(); {
    Fds f; bool six = have6() && g.chance(1, 3); int lf = flags_of(g), L = bound(f, ZPL_SOCKET_TCP, lf, six); REQUIRE(zpl_socket_listen(L, 8) == 0, "listen fails"); address_agrees(g, L);
    if (lf & ZPL_SOCKET_NON_BLOCKING) REQUIRE(zpl_socket_accept(L, 0) == -1, "accept without a caller returned a socket"); REQUIRE(zpl_socket_select(L, 0) == 0, "select says a listener without callers is ready");
    int n = 1 + (int)g.u(3); struct End { int s, peer; std::string fifo; bool closed = false, gone = false; }; std::vector<End> e; bool odd = false; int dirs = 0;    // fifo: sent to this end and not received
    for (int i = 0; i < n; i++) {
        int fl = flags_of(g), c = connected(g, f, ZPL_SOCKET_TCP, fl, L); REQUIRE(zpl_socket_select(L, 10) == 1, "select does not report a waiting caller"); zpl_socket_addr from; memset(&from, 0xA5, sizeof from); bool want = g.boolean(); int a = f.add(zpl_socket_accept(L, want ? &from : 0)); REQUIRE(a >= 0, "accept refuses a waiting caller");
        REQUIRE(kern(a, true) == kern(c, false), "accept returned a connection with %s, the caller is %s", kern(a, true).c_str(), kern(c, false).c_str()); if (want) REQUIRE(shown(from) == kern(c, false), "accept reports the caller as %s, it is %s", shown(from).c_str(), kern(c, false).c_str());
        address_agrees(g, c); if (g.boolean()) { int x = fcntl(a, F_GETFL); fcntl(a, F_SETFL, x | O_NONBLOCK); }
        e.push_back({c, 2 * i + 1}); e.push_back({a, 2 * i});
    }
    int ops = 1 + (int)g.size(40);
    for (int k = 0; k < ops; k++) {
        size_t i = g.u(e.size()); End &x = e[i], &y = e[(size_t)x.peer];
        switch (g.u(8)) {
            case 0: case 1: case 2: { if (x.gone || x.closed || y.gone) break; size_t room = 30000 - std::min<size_t>(30000, y.fifo.size()); if (!room) break; std::string d = payload(g, 1 + g.size(std::min<size_t>(room, g.chance(1, 8) ? 30000 : 300) - 1)); Exact b(d); zpl_i32 r = zpl_socket_send(x.s, b.c(), (zpl_i32)d.size()); REQUIRE(r > 0 && r <= (zpl_i32)d.size(), "send of %zu bytes with %zu unread returned %d", d.size(), y.fifo.size(), r); if (y.fifo.empty()) dirs++; y.fifo.append(d, 0, (size_t)r); } break;
            case 3: case 4: case 5: { if (x.gone) break; bool eof = x.fifo.empty() && (y.gone || y.closed);
                if (x.fifo.empty() && !eof) { REQUIRE(zpl_socket_select(x.s, 0) == 0, "select says there is data, nothing was sent"); if (flag_nonblock(x.s)) { Exact b(16, 0); REQUIRE(zpl_socket_receive(x.s, b.c(), 16) == -1, "receive without data did not fail"); } break; }
                REQUIRE(zpl_socket_select(x.s, 10) == 1, "select does not report %zu bytes that were sent", x.fifo.size()); size_t sz = 1 + g.size(g.chance(1, 8) ? 40000 : 200); Exact b(sz, 0xA5); zpl_i32 r = zpl_socket_receive(x.s, b.c(), (zpl_i32)sz);
                if (eof) { REQUIRE(r == 0, "receive behind the end returned %d", r); break; }
                REQUIRE(r > 0 && (size_t)r <= std::min(sz, x.fifo.size()), "receive into %zu bytes returned %d, %zu bytes were on their way", sz, r, x.fifo.size()); REQUIRE(memcmp(b.c(), x.fifo.data(), (size_t)r) == 0, "received %s, sent was %s", esc(std::string(b.c(), (size_t)r)).c_str(), esc(x.fifo.substr(0, (size_t)r)).c_str()); for (size_t q = (size_t)r; q < sz; q++) REQUIRE((unsigned char)b.c()[q] == 0xA5, "receive wrote behind the %d bytes it reports", r);
                if ((size_t)r != x.fifo.size()) odd = true; x.fifo.erase(0, (size_t)r); } break;
            case 6: { std::vector<zpl_socket> set; bool any = false, wait = false; for (auto &q : e) if (!q.gone && g.boolean()) { set.push_back(q.s); if (g.chance(1, 5)) set.push_back(-1); if (!q.fifo.empty() || e[(size_t)q.peer].gone || e[(size_t)q.peer].closed) { any = true; wait = true; } } if (set.empty()) break; for (size_t q = set.size() - 1; q > 0; q--) std::swap(set[q], set[g.u(q + 1)]);
                zpl_i32 r = zpl_socket_multi_select(set.data(), (zpl_i32)set.size(), wait ? 10 : 0); REQUIRE(any ? r >= 1 && r <= (zpl_i32)set.size() : r == 0, "multi_select of %zu sockets returned %d, %s has data", set.size(), r, any ? "at least one" : "none"); } break;
            default: if (g.chance(1, 3)) { if (!x.gone && !x.closed) { if (x.fifo.empty() && g.boolean()) { f.close(x.s); x.gone = true; } else { ::shutdown(x.s, SHUT_WR); x.closed = true; } } } else if (!x.gone) address_agrees(g, x.s);
        }
    }
    for (auto &x : e) while (!x.gone && !x.fifo.empty()) { REQUIRE(zpl_socket_select(x.s, 10) == 1, "%zu bytes that were sent never arrive", x.fifo.size()); Exact b(4096, 0); zpl_i32 r = zpl_socket_receive(x.s, b.c(), 4096); REQUIRE(r > 0 && (size_t)r <= x.fifo.size() && memcmp(b.c(), x.fifo.data(), (size_t)r) == 0, "the rest arrives changed (%d)", r); x.fifo.erase(0, (size_t)r); }
    if (odd && dirs >= 2) g.nontrivial();
    }
    REQUIRE(fd_count() == before, "%d descriptors open, %d before", fd_count(), before);
}
PROPERTY(datagrams, 12000, 60000, "at least three datagrams from two senders were received") {
    Fds f; bool six = have6() && g.chance(1, 3); int n = 2 + (int)g.u(3); struct P { int s; std::deque<std::pair<int, std::string>> q; size_t load = 0; }; std::vector<P> p; std::vector<zpl_socket_addr> addr((size_t)n); int got = 0; std::set<int> from_set;
    for (int i = 0; i < n; i++) { int s = bound(f, ZPL_SOCKET_UDP, flags_of(g) & ZPL_SOCKET_NON_BLOCKING, six); p.push_back({s, {}, 0}); memset(&addr[i], 0xA5, sizeof addr[i]); REQUIRE(zpl_socket_get_address(s, &addr[i]) == 0, "get_address fails"); REQUIRE(shown(addr[i]) == kern(s, false), "get_address says %s, the socket is bound to %s", shown(addr[i]).c_str(), kern(s, false).c_str()); }
    int nc = (int)g.u(3); std::vector<std::pair<int, int>> conn; for (int i = 0; i < nc; i++) { int to = (int)g.u((u64)n); int c = connected(g, f, ZPL_SOCKET_UDP, flags_of(g) & ZPL_SOCKET_NON_BLOCKING, p[(size_t)to].s); conn.emplace_back(c, to); }
    std::vector<zpl_socket_addr> caddr(conn.size()); for (size_t i = 0; i < conn.size(); i++) REQUIRE(zpl_socket_get_address(conn[i].first, &caddr[i]) == 0, "get_address fails for a connected datagram socket");
    int ops = 2 + (int)g.size(40);
    for (int k = 0; k < ops; k++) {
        if (g.chance(1, 2)) {
            bool viac = !conn.empty() && g.chance(1, 3); size_t ci = viac ? g.u(conn.size()) : 0; int to = viac ? conn[ci].second : (int)g.u((u64)n); P &d = p[(size_t)to]; int from = viac ? n + (int)ci : (int)g.u((u64)n);
            size_t len = g.chance(1, 8) ? g.size(d.load == 0 ? 60000 : 4000) : g.size(200); if (d.load + len * 2 + 2000 > 120000 && d.load) continue; std::string m = payload(g, len); Exact b(m);
            zpl_i32 r = viac ? zpl_socket_send(conn[ci].first, b.c(), (zpl_i32)len) : zpl_socket_send_to(p[(size_t)from].s, &addr[(size_t)to], b.c(), (zpl_i32)len); REQUIRE(r == (zpl_i32)len, "sending a datagram of %zu bytes returned %d", len, r); d.q.emplace_back(from, m); d.load += len * 2 + 2000;
        } else {
            size_t i = g.u((u64)n); P &d = p[i];
            if (d.q.empty()) { REQUIRE(zpl_socket_select(d.s, 0) == 0, "select says there is a datagram, none was sent"); if (flag_nonblock(d.s)) { Exact b(8, 0); REQUIRE(zpl_socket_receive_from(d.s, g.boolean() ? &addr[i] : 0, b.c(), 8) == -1, "receive without a datagram did not fail"); } continue; }
            REQUIRE(zpl_socket_select(d.s, 10) == 1, "select does not report a datagram that was sent"); auto m = d.q.front(); d.q.pop_front(); d.load -= m.second.size() * 2 + 2000;
            size_t sz = g.chance(1, 3) ? g.u(m.second.size() + 2) : m.second.size() + g.u(50); Exact b(sz, 0xA5); zpl_socket_addr a; memset(&a, 0xA5, sizeof a); int how = (int)g.u(3); zpl_i32 r = how == 0 ? zpl_socket_receive(d.s, b.c(), (zpl_i32)sz) : zpl_socket_receive_from(d.s, how == 1 ? &a : 0, b.c(), (zpl_i32)sz);
            size_t want = std::min(sz, m.second.size()); REQUIRE(r == (zpl_i32)want, "receiving a datagram of %zu bytes into %zu returned %d (%s)", m.second.size(), sz, r, how ? "receive_from" : "receive"); REQUIRE(memcmp(b.c(), m.second.data(), want) == 0, "a datagram arrived changed"); for (size_t q = want; q < sz; q++) REQUIRE((unsigned char)b.c()[q] == 0xA5, "receive wrote behind the %d bytes it reports", r);
            if (how == 1) { std::string real = m.first < n ? kern(p[(size_t)m.first].s, false) : kern(conn[(size_t)m.first - (size_t)n].first, false); REQUIRE(shown(a) == real, "receive_from reports the sender as %s, it was %s", shown(a).c_str(), real.c_str());
                if (m.first < n && g.chance(1, 4)) { P &back = p[(size_t)m.first]; if (back.load < 60000) { std::string an = payload(g, 1 + g.size(100)); Exact ab(an); REQUIRE(zpl_socket_send_to(d.s, &a, ab.c(), (zpl_i32)an.size()) == (zpl_i32)an.size(), "answering the reported sender fails"); back.q.emplace_back((int)i, an); back.load += an.size() * 2 + 2000; } } }
            got++; from_set.insert(m.first);
        }
    }
    if (got >= 3 && from_set.size() >= 2) g.nontrivial();
}
// more data than the kernel buffers hold, both ways at once, with partial sends
PROPERTY(bulk, 300, 2500, "at least 300000 bytes were transferred in each direction", 1) {
    Fds f; int L = bound(f, ZPL_SOCKET_TCP, 0, have6() && g.chance(1, 4)); REQUIRE(zpl_socket_listen(L, 2) == 0, "listen fails"); int c = connected(g, f, ZPL_SOCKET_TCP, flags_of(g), L), a = f.add(zpl_socket_accept(L, 0)); REQUIRE(a >= 0, "accept fails");
    bool nb = g.boolean(); if (nb) { fcntl(a, F_SETFL, O_NONBLOCK); fcntl(c, F_SETFL, O_NONBLOCK); } size_t total = g.boolean() ? 300001 + g.u(3000000) : 1 + g.size(400000), chunk = 1 + (g.boolean() ? g.u(200000) : g.size(3000)), rc = 1 + (g.boolean() ? g.u(200000) : g.size(3000)); u64 s1 = g.u64any(), s2 = g.u64any(); if (total / chunk > 20000) total = chunk * 20000; if (total / rc > 20000) total = rc * 20000;
    std::string d1(total, 0), d2(total, 0); for (auto &x : d1) x = (char)splitmix(s1); for (auto &x : d2) x = (char)splitmix(s2); std::string err[4], got[2];
    auto send = [&](int s, const std::string &d, std::string &e) { size_t o = 0; double idle = 0; while (o < d.size()) { size_t n = std::min(chunk, d.size() - o); zpl_i32 r = zpl_socket_send(s, d.data() + o, (zpl_i32)n); if (r > (zpl_i32)n || r == 0 || (r < 0 && !nb)) { e = "send returned " + std::to_string(r) + " of " + std::to_string(n); ::shutdown(s, SHUT_RDWR); return; } if (r < 0) { usleep(100); if ((idle += 1e-4) > 20) { e = "send makes no progress"; return; } continue; } o += (size_t)r; } ::shutdown(s, SHUT_WR); };
    auto recv = [&](int s, std::string &out, std::string &e) { std::string b(rc, 0); for (;;) { if (zpl_socket_select(s, 20) != 1) { e = "select reports nothing within 20 s"; ::shutdown(s, SHUT_RDWR); return; } zpl_i32 r = zpl_socket_receive(s, &b[0], (zpl_i32)rc); if (r < 0) { e = "receive failed although select reported data"; ::shutdown(s, SHUT_RDWR); return; } if (r == 0) return; out.append(b, 0, (size_t)r); } };
    std::thread t1([&] { send(c, d1, err[0]); }), t2([&] { send(a, d2, err[1]); }), t3([&] { recv(a, got[0], err[2]); }), t4([&] { recv(c, got[1], err[3]); }); t1.join(); t2.join(); t3.join(); t4.join();
    for (auto &e : err) REQUIRE(e.empty(), "%s", e.c_str()); REQUIRE(got[0] == d1 && got[1] == d2, "%zu bytes each way: %zu and %zu arrived, %s", total, got[0].size(), got[1].size(), got[0] == d1 ? "the second stream changed" : "the first stream changed"); if (total > 300000) g.nontrivial();
}
PROPERTY(errors, 3000, 40000, "an operation that must fail was tried") {
    signal(SIGPIPE, SIG_DFL); int before = fd_count(); REQUIRE(zpl_socket_init() == 0, "socket_init fails"); {
    Fds f; Exact b(64, 'x'); int kind = (int)g.u(13), fl = flags_of(g); g.nontrivial();
    switch (kind) {
        case 0: { int proto = g.boolean(), s = bound(f, proto, 0, false), port = 0; if (!proto) REQUIRE(zpl_socket_listen(s, 1) == 0, "listen fails"); kern(s, false, &port); Exact sv(std::to_string(port), true); int r = f.add(zpl_socket_create(proto, ZPL_SOCKET_BIND, (char)fl, "127.0.0.1", sv.c())); REQUIRE(r == -1, "binding to a port in use gave socket %d", r); } break;
        case 1: { int s = bound(f, ZPL_SOCKET_TCP, 0, false), port = 0; kern(s, false, &port); Exact sv(std::to_string(port), true); int r = f.add(zpl_socket_create(ZPL_SOCKET_TCP, ZPL_SOCKET_CONNECT, (char)(fl & ~ZPL_SOCKET_NON_BLOCKING), "127.0.0.1", sv.c())); REQUIRE(r == -1, "connecting to a port where nobody listens gave socket %d", r); } break;
        case 2: { int r = f.add(zpl_socket_create(g.boolean(), ZPL_SOCKET_BIND, (char)fl, "203.0.113.77", "0")); REQUIRE(r == -1, "binding to an address of another machine gave socket %d", r); } break;
        case 3: { int r = f.add(zpl_socket_create(g.boolean(), g.boolean(), (char)fl, g.boolean() ? "127.0.0.1" : 0, g.boolean() ? "no-such-service" : "80x")); REQUIRE(r == -1, "an unknown service gave socket %d", r); } break;
        case 4: { int r = f.add(zpl_socket_create(g.boolean(), g.boolean(), (char)fl, 0, 0)); REQUIRE(r == -1, "neither host nor service gave socket %d", r); } break;
        case 5: { int s = -1; if (g.boolean()) { s = bound(f, ZPL_SOCKET_UDP, 0, false); f.close(s); } zpl_socket_addr a; memset(&a, 0, sizeof a); REQUIRE(zpl_socket_get_address(s, &a) != 0, "get_address of no socket succeeds"); REQUIRE(zpl_socket_send(s, b.c(), 8) == -1 && zpl_socket_receive(s, b.c(), 8) == -1, "send or receive on no socket does not fail"); REQUIRE(zpl_socket_send_to(s, &a, b.c(), 8) == -1 && zpl_socket_receive_from(s, &a, b.c(), 8) == -1, "send_to or receive_from on no socket does not fail"); REQUIRE(zpl_socket_listen(s, 1) != 0 && zpl_socket_accept(s, &a) == -1, "listen or accept on no socket does not fail"); if (s > 0) REQUIRE(zpl_socket_select(s, 0) == -1 && zpl_socket_multi_select(&s, 1, 0) == -1, "select on a closed socket does not fail"); } break;
        case 6: { int s = bound(f, ZPL_SOCKET_TCP, 0, false); REQUIRE(zpl_socket_accept(s, 0) == -1, "accept on a socket that does not listen gave a connection"); REQUIRE(zpl_socket_receive(s, b.c(), 8) == -1, "receive on an unconnected stream does not fail"); REQUIRE(zpl_socket_send(s, b.c(), 8) == -1, "send on an unconnected stream does not fail"); int u = bound(f, ZPL_SOCKET_UDP, 0, false); REQUIRE(zpl_socket_listen(u, 1) != 0, "listening on a datagram socket succeeds"); REQUIRE(zpl_socket_send(u, b.c(), 8) == -1, "send on an unconnected datagram socket does not fail"); } break;
        case 7: { zpl_socket_addr a; memset(&a, 0xEE, sizeof a); Exact h(32, 0), sv(32, 0); REQUIRE(zpl_socket_get_address_info(&a, h.c(), 32, sv.c(), 32) != 0, "get_address_info of garbage succeeds"); int u = bound(f, ZPL_SOCKET_UDP, 0, false); REQUIRE(zpl_socket_send_to(u, &a, b.c(), 8) == -1, "sending to a garbage address does not fail"); std::string big(70000, 'x'); zpl_socket_addr own; REQUIRE(zpl_socket_get_address(u, &own) == 0, "get_address fails"); REQUIRE(zpl_socket_send_to(u, &own, big.data(), 70000) == -1, "a datagram of 70000 bytes was accepted"); } break;
        case 8: { // the peer is gone: sending must come to fail, and must not end the process
            int L = bound(f, ZPL_SOCKET_TCP, 0, false); REQUIRE(zpl_socket_listen(L, 2) == 0, "listen fails"); int c = connected(g, f, ZPL_SOCKET_TCP, fl, L), a = f.add(zpl_socket_accept(L, 0)); REQUIRE(a >= 0, "accept fails"); bool flip = g.boolean(); int mine = flip ? a : c; f.close(flip ? c : a); zpl_i32 r = 0; for (int i = 0; i < 2000 && r != -1; i++) { r = zpl_socket_send(mine, b.c(), 1 + (zpl_i32)g.u(4)); if (r != -1 && i > 2) usleep(1000); } REQUIRE(r == -1, "sending to a closed connection never fails"); REQUIRE(zpl_socket_send(mine, b.c(), 8) == -1, "sending to a closed connection succeeds after it failed"); } break;
        case 9: { // handles beyond what select can represent: a correct answer or an error
            struct rlimit old, big; getrlimit(RLIMIT_NOFILE, &old); big = old; big.rlim_cur = std::min<rlim_t>(old.rlim_max, 9000); setrlimit(RLIMIT_NOFILE, &big); int u = bound(f, ZPL_SOCKET_UDP, 0, false), hi = 1000 + (int)g.u(g.boolean() ? 60 : 7000); int d = ::dup2(u, hi); if (d < 0) { setrlimit(RLIMIT_NOFILE, &old); throw Discard(); } f.add(d); bool data = g.boolean(); if (data) { zpl_socket_addr own; REQUIRE(zpl_socket_get_address(d, &own) == 0, "get_address fails"); REQUIRE(zpl_socket_send_to(u, &own, b.c(), 5) == 5, "send_to fails"); }
            std::vector<zpl_socket> set{-1, d}; if (g.boolean()) set.push_back(bound(f, ZPL_SOCKET_UDP, 0, false)); zpl_i32 r = zpl_socket_select(d, data ? 10 : 0), m = zpl_socket_multi_select(set.data(), (zpl_i32)set.size(), data ? 10 : 0); REQUIRE(r == (data ? 1 : 0) || (r == -1 && d >= FD_SETSIZE), "select of handle %d returned %d, data %d", d, r, data); REQUIRE(m == (data ? 1 : 0) || (m == -1 && d >= FD_SETSIZE), "multi_select with handle %d returned %d, data %d", d, m, data); setrlimit(RLIMIT_NOFILE, &old); } break;
        case 10: { // no handle is left: that is an error, not a socket
            struct rlimit old, none; getrlimit(RLIMIT_NOFILE, &old); none = old; int proto = g.boolean(), mode = g.boolean(), next = ::dup(0); if (next < 0) throw Discard(); ::close(next); none.rlim_cur = (rlim_t)next; setrlimit(RLIMIT_NOFILE, &none); int r = zpl_socket_create(proto, mode, (char)fl, "127.0.0.1", "9"); setrlimit(RLIMIT_NOFILE, &old); REQUIRE(r == -1, "with no handle left, create gave socket %d", r); } break;
        case 11: { // what the flags ask for, one at a time
            int p = g.boolean() ? ZPL_SOCKET_TCP : ZPL_SOCKET_UDP, a = f.add(zpl_socket_create(p, ZPL_SOCKET_BIND, ZPL_SOCKET_NON_BLOCKING, "127.0.0.1", "0")), d = f.add(zpl_socket_create(p, ZPL_SOCKET_BIND, ZPL_SOCKET_DEFAULT, "127.0.0.1", "0")), n = f.add(zpl_socket_create(ZPL_SOCKET_TCP, ZPL_SOCKET_BIND, ZPL_SOCKET_NO_DELAY, "127.0.0.1", "0")), both = f.add(zpl_socket_create(ZPL_SOCKET_TCP, ZPL_SOCKET_BIND, ZPL_SOCKET_NON_BLOCKING | ZPL_SOCKET_NO_DELAY, "127.0.0.1", "0"));
            REQUIRE(a >= 0 && d >= 0 && n >= 0 && both >= 0, "create fails"); REQUIRE(flag_nonblock(a) && !flag_nonblock(d) && !flag_nonblock(n) && flag_nonblock(both), "NON_BLOCKING: asked for it the socket %s, by default %s, with NO_DELAY %s, with both %s", flag_nonblock(a) ? "does not block" : "blocks", flag_nonblock(d) ? "does not block" : "blocks", flag_nonblock(n) ? "does not block" : "blocks", flag_nonblock(both) ? "does not block" : "blocks"); REQUIRE(flag_nodelay(n) && flag_nodelay(both) && (p == ZPL_SOCKET_UDP || (!flag_nodelay(a) && !flag_nodelay(d))), "NO_DELAY is %d, with NON_BLOCKING %d", flag_nodelay(n), flag_nodelay(both)); } break;
        default: { int u = bound(f, ZPL_SOCKET_UDP, 0, false); double t = (double)g.u(30) / 1000; struct timespec x, y; clock_gettime(CLOCK_MONOTONIC, &x); REQUIRE((g.boolean() ? zpl_socket_select(u, t) : zpl_socket_multi_select(&u, 1, t)) == 0, "select reports data, none was sent"); clock_gettime(CLOCK_MONOTONIC, &y); double el = (double)(y.tv_sec - x.tv_sec) + (double)(y.tv_nsec - x.tv_nsec) * 1e-9; REQUIRE(el >= t - 1e-4, "select gave up after %g s of %g s", el, t); }
    }
    }
    zpl_socket_terminate(); REQUIRE(fd_count() == before, "%d descriptors are open, %d before", fd_count(), before);
}
