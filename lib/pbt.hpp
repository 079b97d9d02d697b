// Small property-based-testing engine (choice-sequence based, internal shrinking).
//
// A test case is a function of a stream of bounded choices.  Choices come from a PRNG (search),
// from a recorded list (replay / shrinking) or from the bytes libFuzzer hands over
// (coverage-guided search).  Cases run in forked workers, so a crash, an AddressSanitizer
// report or a hang of the code under test is an ordinary failing case that is shrunk and
// replayed like any other.
#pragma once
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace pbt {

typedef uint64_t u64;

struct Fail { std::string msg; };
struct Discard {};

enum { EXIT_PASS = 0, EXIT_ASSERT = 70, EXIT_HANG = 71, EXIT_SAN = 72 };

static inline u64 splitmix(u64 &x) {
    u64 z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static inline u64 mix(u64 a, u64 b) { u64 x = a * 0x9E3779B97F4A7C15ull + b; splitmix(x); return splitmix(x); }

struct Gen {
    // recorded choices
    u64 *buf; size_t cap; volatile size_t *np; size_t n;
    // source
    int mode;                     // 0 random, 1 replay, 2 fuzz bytes
    u64 rs;                       // random state
    const u64 *rep; size_t rn;
    const uint8_t *fz; size_t fzn, fzp;
    // outcome
    bool verbose, is_nt, overrun;
    std::string log;
    const std::set<std::string> *known_ids;
    std::map<std::string, u64> *labels;

    u64 draw(u64 max) {
        if (n >= cap) throw Discard();
        u64 v;
        if (mode == 0) {
            u64 r = splitmix(rs);
            v = max == ~0ull ? r : (u64)(((unsigned __int128)r * (max + 1)) >> 64);
        } else if (mode == 1) {
            v = n < rn ? rep[n] : 0;
            if (v > max) v = max;
        } else {
            int nb = max <= 0xff ? 1 : max <= 0xffff ? 2 : max <= 0xffffffffull ? 4 : 8;
            if (max == 0) nb = 0;
            v = 0;
            if (fzp + nb > fzn) { overrun = true; fzp = fzn; }
            else for (int i = 0; i < nb; i++) v |= (u64)fz[fzp++] << (8 * i);
            if (max != ~0ull) v %= (max + 1);
        }
        buf[n++] = v; *np = n;
        return v;
    }
    u64 u(u64 k) { return draw(k - 1); }                          // [0,k)
    bool chance(u64 num, u64 den) { return draw(den - 1) >= den - num; }
    bool boolean() { return draw(1); }
    int64_t range(int64_t lo, int64_t hi) {                        // inclusive, shrinks to 0 or lo
        u64 span = (u64)hi - (u64)lo;
        u64 v = draw(span);
        if (lo <= 0 && hi >= 0) { if (v <= (u64)hi) return (int64_t)v; return -(int64_t)(v - (u64)hi - 1) - 1; }
        return (int64_t)((u64)lo + v);
    }
    // biased towards small sizes, with powers of two and their neighbours
    size_t size(size_t max) {
        u64 k = draw(9);
        if (k <= 4) return draw(std::min<size_t>(max, 8));
        if (k <= 6) return draw(std::min<size_t>(max, 40));
        if (k == 7) return draw(max);
        size_t b = (size_t)1 << draw(20); int64_t d = range(-1, 1);
        int64_t r = (int64_t)b + d; if (r < 0) r = 0; if ((size_t)r > max) r = (int64_t)(max - std::min<size_t>(max, draw(2)));
        return (size_t)r;
    }
    u64 u64any() {
        switch (draw(5)) {
            case 0: return draw(20);
            case 1: return draw(0xffff);
            case 2: { u64 b = 1ull << draw(63); return b + (u64)range(-2, 2); }
            case 3: return ~0ull - draw(3);
            case 4: { u64 r = draw(~0ull); return r >> draw(63); }
            default: return draw(~0ull);
        }
    }
    int64_t i64any() { u64 v = u64any(); if (draw(1)) v = 0 - v; return (int64_t)v; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size() - 1)]; }
    char pickc(const char *s) { return s[draw(strlen(s) - 1)]; }
    std::string str(size_t maxlen, const std::string &alphabet) { size_t n = size(maxlen); std::string s; for (size_t i = 0; i < n; i++) s += alphabet[u(alphabet.size())]; return s; }
    std::string str(size_t maxlen, const char *alphabet) {
        size_t l = size(maxlen); std::string s; s.reserve(l);
        for (size_t i = 0; i < l; i++) s += pickc(alphabet);
        return s;
    }
    std::string bytes(size_t len) {                                // arbitrary bytes
        std::string s; s.reserve(len);
        for (size_t i = 0; i < len;) { u64 v = draw(~0ull); for (int k = 0; k < 8 && i < len; k++, i++) s += (char)(v >> (8 * k)); }
        return s;
    }
    void nontrivial() { is_nt = true; }
    void label(const char *l) { if (labels) (*labels)[l]++; }
    bool known(const char *id) const { return known_ids && known_ids->count(id); }
    __attribute__((format(printf, 2, 3))) void note(const char *fmt, ...) {
        if (!verbose || log.size() > 20000) return;
        char b[2048]; va_list va; va_start(va, fmt); vsnprintf(b, sizeof b, fmt, va); va_end(va);
        log += b; log += "\n";
        fprintf(stderr, "  | %s\n", b);
    }
};

__attribute__((format(printf, 1, 2), noreturn)) static inline void fail(const char *fmt, ...) {
    char b[4096]; va_list va; va_start(va, fmt); vsnprintf(b, sizeof b, fmt, va); va_end(va);
    throw Fail{b};
}
#define REQUIRE(c, ...) do { if (!(c)) { char _pb[3000]; snprintf(_pb, sizeof _pb, __VA_ARGS__); pbt::fail("%s  [%s]", _pb, #c); } } while (0)

static inline std::string esc(const void *p, size_t n, size_t lim = 160) {
    const unsigned char *c = (const unsigned char *)p; std::string r = "\"";
    for (size_t i = 0; i < n; i++) {
        if (i == lim) { r += "\"..."; char t[32]; snprintf(t, sizeof t, "(%zu bytes)", n); return r + t; }
        if (c[i] == '"' || c[i] == '\\') { r += '\\'; r += (char)c[i]; }
        else if (c[i] >= 32 && c[i] < 127) r += (char)c[i];
        else { char t[8]; snprintf(t, sizeof t, "\\x%02x", c[i]); r += t; }
    }
    return r + "\"";
}
static inline std::string esc(const std::string &s, size_t lim = 160) { return esc(s.data(), s.size(), lim); }

typedef void (*Fn)(Gen &);
struct Sub {
    const char *name; Fn fn;
    u64 quick, thorough;        // number of cases
    const char *rule;           // when a case counts as non-trivial
    int flags;                  // 1 = nondeterministic (schedules): replay tries many times
    bool stop = false;
};
struct Known { const char *id; Fn probe; };   // probe fails (throws / crashes) while the finding is present

std::vector<Sub> &subs();
std::vector<Known> &knowns();
struct RegSub { RegSub(const char *n, Fn f, u64 q, u64 t, const char *r, int fl = 0) { subs().push_back({n, f, q, t, r, fl}); } };
struct RegKnown { RegKnown(const char *id, Fn f) { knowns().push_back({id, f}); } };
#define PROPERTY(name, quick, thorough, rule, ...) \
    static void prop_##name(pbt::Gen &g); \
    static pbt::RegSub reg_##name(#name, prop_##name, quick, thorough, rule, ##__VA_ARGS__); \
    static void prop_##name(pbt::Gen &g)
#define KNOWN_FINDING(name, id) \
    static void known_##name(pbt::Gen &g); \
    static pbt::RegKnown kreg_##name(id, known_##name); \
    static void known_##name(pbt::Gen &g)

// exact-size heap copy: AddressSanitizer sees every access outside it
struct Exact {
    unsigned char *p; size_t n;
    explicit Exact(const std::string &s) : p((unsigned char *)malloc(s.size())), n(s.size()) { if (n) memcpy(p, s.data(), n); }
    Exact(const std::string &s, bool nul) : p((unsigned char *)malloc(s.size() + 1)), n(s.size()) { memcpy(p, s.data(), n); p[n] = 0; (void)nul; }
    explicit Exact(size_t len, int fill = 0) : p((unsigned char *)malloc(len)), n(len) { if (len) memset(p, fill, len); }
    ~Exact() { free(p); }
    Exact(const Exact &) = delete; Exact &operator=(const Exact &) = delete;
    char *c() { return (char *)p; }
};

// private scratch directory of this process (created on demand, removed by the driver)
const std::string &scratch();

} // namespace pbt
