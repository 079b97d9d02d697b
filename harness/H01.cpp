// H01: checksums and hashes are the published functions, for every byte string.
// @so typed_unity g++ -O3 -std=gnu++17
#include "zh.hpp"
#include "typed_lib.hpp"
typedef unsigned char u8;
// ---- reference definitions, written bit by bit from the published algorithms
static uint32_t r_adler(const std::string &s) { uint32_t a = 1, b = 0; for (unsigned char c : s) { a = (a + c) % 65521; b = (b + a) % 65521; } return b << 16 | a; }
static uint32_t r_crc32(const std::string &s) { uint32_t c = ~0u; for (unsigned char x : s) { c ^= x; for (int k = 0; k < 8; k++) c = (c & 1) ? (c >> 1) ^ 0xEDB88320u : c >> 1; } return ~c; }
static uint64_t r_crc64(const std::string &s) { uint64_t c = 0; for (unsigned char x : s) { c ^= x; for (int k = 0; k < 8; k++) c = (c & 1) ? (c >> 1) ^ 0x95AC9329AC4BC9B5ull : c >> 1; } return c; }
static uint32_t r_f32(const std::string &s, bool a) { uint32_t h = 2166136261u; for (unsigned char c : s) { if (a) h ^= c; h *= 16777619u; if (!a) h ^= c; } return h; }
static uint64_t r_f64(const std::string &s, bool a) { uint64_t h = 14695981039346656037ull; for (unsigned char c : s) { if (a) h ^= c; h *= 1099511628211ull; if (!a) h ^= c; } return h; }
static uint32_t rotl(uint32_t x, int r) { return x << r | x >> (32 - r); }
static uint32_t r_m32(const std::string &s, uint32_t seed) {          // MurmurHash3_x86_32
    uint32_t h = seed; size_t n = s.size(), i = 0;
    auto B = [&](size_t k) { return (uint32_t)(u8)s[k]; };
    for (; i + 4 <= n; i += 4) { uint32_t k = B(i) | B(i + 1) << 8 | B(i + 2) << 16 | B(i + 3) << 24; k *= 0xcc9e2d51; k = rotl(k, 15); k *= 0x1b873593; h ^= k; h = rotl(h, 13); h = h * 5 + 0xe6546b64; }
    uint32_t k = 0; for (size_t j = n; j-- > i;) k = k << 8 | B(j);
    if (n > i) { k *= 0xcc9e2d51; k = rotl(k, 15); k *= 0x1b873593; h ^= k; }
    h ^= (uint32_t)n; h ^= h >> 16; h *= 0x85ebca6b; h ^= h >> 13; h *= 0xc2b2ae35; h ^= h >> 16; return h;
}
static uint64_t r_m64(const std::string &s, uint64_t seed) {          // MurmurHash64A
    const uint64_t m = 0xc6a4a7935bd1e995ull; size_t n = s.size(), i = 0; uint64_t h = seed ^ (n * m);
    auto B = [&](size_t k) { return (uint64_t)(u8)s[k]; };
    for (; i + 8 <= n; i += 8) { uint64_t k = 0; for (int j = 7; j >= 0; j--) k = k << 8 | B(i + j); k *= m; k ^= k >> 47; k *= m; h ^= k; h *= m; }
    if (i < n) { uint64_t k = 0; for (size_t j = n; j-- > i;) k = k << 8 | B(j); h ^= k; h *= m; }
    h ^= h >> 47; h *= m; h ^= h >> 47; return h;
}
// listed finding murmur64-tail: for inputs of 8 bytes or more the last len%8 bytes are replaced by the
// first ones.  Nothing but exactly that wrong value is tolerated.
static uint64_t faulty_m64(const std::string &s, uint64_t seed) { size_t n = s.size(), b = n / 8 * 8; return r_m64(s.substr(0, b) + s.substr(0, n - b), seed); }
static bool m64_ok(Gen &g, const std::string &s, uint64_t seed, uint64_t got) {
    if (got == r_m64(s, seed)) return true;
    return g.known("murmur64-tail") && s.size() > 8 && s.size() % 8 && got == faulty_m64(s, seed);
}
KNOWN_FINDING(m64, "murmur64-tail") { std::string a = "12345678A"; REQUIRE(zpl_murmur64(a.data(), 9) == r_m64(a, 0x9747b28c), "murmur64(\"12345678A\")"); }
static std::string content(Gen &g, size_t n) {
    switch (g.u(4)) {
        case 0: return std::string(n, (char)0xff);
        case 1: return std::string(n, (char)g.draw(255));
        case 2: { std::string s(n, 0); for (int k = 0; k < 3 && n; k++) s[g.draw(n - 1)] = (char)g.draw(255); return s; }
        default: return g.bytes(n);
    }
}
PROPERTY(references, 800000, 12000000, "input of at least 4 bytes that are not all equal") {
    size_t n = g.u(40) == 0 ? (size_t)g.range(5540, 5565) : g.size(600);
    if (g.u(400) == 0) n = 5552 * (1 + g.u(4)) + (size_t)g.range(-9, 9);
    std::string s = content(g, n); n = s.size();
    size_t off = g.u(9); uint64_t seed = g.u64any();
    Exact e(std::string(off, 'x') + s); u8 *p = e.p + off;      // every alignment; the buffer ends with the data
    g.note("len %zu align %zu seed %llx data %s", n, off, (unsigned long long)seed, esc(s, 64).c_str());
    if (n >= 4 && s.find_first_not_of(s[0]) != std::string::npos) g.nontrivial();
    REQUIRE(zpl_adler32(p, n) == r_adler(s), "adler32 %08x, reference %08x (len %zu)", zpl_adler32(p, n), r_adler(s), n);
    REQUIRE(zpl_crc32(p, n) == r_crc32(s), "crc32 %08x, reference %08x (len %zu)", zpl_crc32(p, n), r_crc32(s), n);
    REQUIRE(zpl_crc64(p, n) == r_crc64(s), "crc64 differs (len %zu)", n);
    REQUIRE(zpl_fnv32(p, n) == r_f32(s, false), "fnv32 differs (len %zu)", n);
    REQUIRE(zpl_fnv32a(p, n) == r_f32(s, true), "fnv32a differs (len %zu)", n);
    REQUIRE(zpl_fnv64(p, n) == r_f64(s, false), "fnv64 differs (len %zu)", n);
    REQUIRE(zpl_fnv64a(p, n) == r_f64(s, true), "fnv64a differs (len %zu)", n);
    REQUIRE(zpl_murmur32_seed(p, n, (uint32_t)seed) == r_m32(s, (uint32_t)seed), "murmur32_seed differs (len %zu)", n);
    REQUIRE(m64_ok(g, s, seed, zpl_murmur64_seed(p, n, seed)), "murmur64_seed differs (len %zu)", n);
    REQUIRE(zpl_murmur32(p, n) == r_m32(s, 0x9747b28c), "murmur32 differs (len %zu)", n);
    REQUIRE(m64_ok(g, s, 0x9747b28c, zpl_murmur64(p, n)), "murmur64 differs (len %zu)", n);
    REQUIRE(std::string((char *)p, n) == s, "hashing changed its input");
}
// checksums catch what they are documented to catch: a single flipped bit always changes each CRC / Adler
PROPERTY(bit_flip, 300000, 6000000, "every generated case flips one bit of a non-empty input") {
    size_t n = 1 + g.size(300); std::string s = g.bytes(n), t = s; size_t b = g.draw(n * 8 - 1); t[b / 8] ^= 1 << (b % 8);
    g.note("len %zu flip bit %zu", n, b); g.nontrivial();
    Exact x(s), y(t);
    REQUIRE(zpl_crc32(x.p, n) != zpl_crc32(y.p, n), "crc32 misses a one-bit error");
    REQUIRE(zpl_crc64(x.p, n) != zpl_crc64(y.p, n), "crc64 misses a one-bit error");
    REQUIRE(zpl_adler32(x.p, n) != zpl_adler32(y.p, n), "adler32 misses a one-bit error");
    REQUIRE(zpl_fnv64a(x.p, n) != zpl_fnv64a(y.p, n), "fnv64a is not injective per byte");
}

// The bytes of objects of the program's own types, hashed by the library compiled into one optimised C++ file with the program.
PROPERTY(typed, 400000, 6000000, "at least 8 bytes") {
    TCase c = typed_case(g, TK_MEM_OPS, TK_OPS); const std::string &s = c.a; uint32_t sd = c.par[0]; bool ok; const char *nm; switch (c.op) {
        case TK_ADLER: nm = "adler32"; ok = c.r == r_adler(s); break; case TK_CRC32: nm = "crc32"; ok = c.r == r_crc32(s); break; case TK_CRC64: nm = "crc64"; ok = c.r == r_crc64(s); break;
        case TK_FNV32: nm = "fnv32"; ok = c.r == r_f32(s, false); break; case TK_FNV32A: nm = "fnv32a"; ok = c.r == r_f32(s, true); break; case TK_FNV64: nm = "fnv64"; ok = c.r == r_f64(s, false); break; case TK_FNV64A: nm = "fnv64a"; ok = c.r == r_f64(s, true); break;
        case TK_M32: nm = "murmur32_seed"; ok = c.r == r_m32(s, sd); break; default: nm = "murmur64_seed"; ok = m64_ok(g, s, sd, c.r); }
    g.note("%s of %s: %s", nm, c.name().c_str(), esc(s, 64).c_str()); if (s.size() >= 8) g.nontrivial(); g.label(nm);
    REQUIRE(ok, "%s of %s gives %llx, which is not the hash of the bytes %s", nm, c.name().c_str(), (unsigned long long)c.r, esc(s, 200).c_str());
    REQUIRE(c.oa == c.a && c.ob == c.b, "hashing changed the program's data");
}
