// H02: Base64 encoding and decoding are inverse
// @fuzz-quick 5
// @fuzz-thorough 120
#include "zh.hpp"
#include "treelib.hpp"
static const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string ref_encode(const std::string &s) {
    std::string o; for (size_t i = 0; i < s.size(); i += 3) { unsigned v = 0; size_t k = std::min<size_t>(3, s.size() - i); for (size_t j = 0; j < 3; j++) v = v << 8 | (j < k ? (unsigned char)s[i + j] : 0); for (size_t j = 0; j < 4; j++) o += j <= k ? A64[v >> (18 - 6 * j) & 63] : '='; }
    return o;
}
static bool ref_decode(const std::string &t, std::string &o) {               // whole groups; padding only at the very end
    o.clear(); if (t.size() % 4) return false; size_t pad = 0; while (pad < 2 && pad < t.size() && t[t.size() - 1 - pad] == '=') pad++;
    for (size_t i = 0; i < t.size(); i += 4) { unsigned v = 0; for (size_t j = 0; j < 4; j++) { char c = t[i + j]; v <<= 6; if (i + j >= t.size() - pad) continue; const char *p = c ? strchr(A64, c) : nullptr; if (!p) return false; v |= (unsigned)(p - A64); } for (size_t j = 0; j < 3; j++) if (i + j + 1 < t.size() - pad) o += (char)(v >> (16 - 8 * j)); }
    return true;
}
static std::string some_bytes(Gen &g) { size_t n = g.u(6) ? g.size(20) : g.size(700); return g.boolean() ? g.bytes(n) : g.str(n, std::string("\0\xff" "aZ~\x7f\x80", 7)); }
PROPERTY(round_trip, 150000, 4000000, "a length that is not a multiple of three and at least 4") {
    std::string s = some_bytes(g); if (s.empty()) s = "x"; g.note("%zu bytes %s", s.size(), esc(s.substr(0, 60)).c_str()); Exact in(s); Meter m; zpl_allocator al = meter_allocator(m); zpl_u8 *enc = zpl_base64_encode(al, in.p, (zpl_isize)in.n); REQUIRE(enc, "encoding %zu bytes fails", s.size());
    std::string want = ref_encode(s), got = (char *)enc; REQUIRE(got == want, "encoded as %s, expected %s", esc(got).c_str(), esc(want).c_str());
    REQUIRE(std::string((char *)in.p, in.n) == s, "encoding changed its input");
    Exact t(got, g.boolean()); zpl_u8 *dec = zpl_base64_decode(al, t.p, (zpl_isize)got.size()); REQUIRE(dec, "decoding %s fails", esc(got).c_str()); REQUIRE(!memcmp(dec, s.data(), s.size()), "%s is decoded to %s", esc(got).c_str(), esc(std::string((char *)dec, s.size())).c_str()); REQUIRE(dec[s.size()] == 0, "the decoded bytes are not terminated");
    zpl_free(al, enc); zpl_free(al, dec); REQUIRE(m.live == 0, "%ld blocks leak", m.live); if (s.size() >= 4 && s.size() % 3) g.nontrivial();
}
PROPERTY(any_text, 200000, 5000000, "a text that is not properly encoded") {
    std::string t; int how = (int)g.u(4); if (how == 0) t = some_bytes(g); else if (how == 1) t = g.str(g.size(24), std::string("ABab09+/====\0 ", 14)); else { t = ref_encode(some_bytes(g)); for (u64 k = 1 + g.u(3); k-- && t.size();) { size_t at = g.u(4) ? g.u(t.size()) : t.size() - 1 - g.u(std::min<size_t>(t.size(), 4)); switch (g.u(5)) { case 0: t.erase(at, 1 + g.u(3)); break; case 1: t.insert(at, 1, "=A+\n-_"[g.u(6)]); break; case 2: t[at] = "=*,-.:;<?@[`{\x80\xff\0"[g.u(16)]; break; case 3: t[at] = (char)g.u(256); break; default: t += "="; } } }
    g.note("%s", esc(t).c_str()); std::string want; bool ok = ref_decode(t, want); Exact e(t, g.u(3) == 0); Meter m; zpl_allocator al = meter_allocator(m); zpl_u8 *dec = zpl_base64_decode(al, e.p, (zpl_isize)t.size());
    if (!ok) REQUIRE(!dec, "%s is not Base64 but is decoded", esc(t).c_str());
    else if (t.size()) { REQUIRE(dec, "%s is refused", esc(t).c_str()); REQUIRE(!memcmp(dec, want.data(), want.size()) && dec[want.size()] == 0, "%s is decoded to %s", esc(t).c_str(), esc(std::string((char *)dec, want.size())).c_str()); }
    if (dec) zpl_free(al, dec); REQUIRE(m.live == 0, "%ld blocks leak", m.live); if (!ok) g.nontrivial();
}
PROPERTY(groups, 100000, 2000000, "at least one byte of the group is 0 or at least 0x80") {
    // the three-byte groups themselves, densely
    std::string s = g.bytes(1 + g.u(3)); Exact e(s); zpl_u8 *enc = zpl_base64_encode(zpl_heap(), e.p, (zpl_isize)s.size()); std::string t = (char *)enc, want = ref_encode(s); zpl_mfree(enc); REQUIRE(t == want, "%s is encoded as %s, expected %s", esc(s).c_str(), t.c_str(), want.c_str());
    zpl_u8 *dec = zpl_base64_decode(zpl_heap(), t.c_str(), (zpl_isize)t.size()); REQUIRE(dec && !memcmp(dec, s.data(), s.size()), "%s is not decoded to its source", t.c_str()); zpl_mfree(dec); for (unsigned char c : s) if (!c || c >= 128) { g.nontrivial(); break; }
}
