// Replay harness support: executes the code of /repo on concrete inputs against an independent oracle.
// It never decides that a property holds; it only turns violations into concrete failing inputs.
#ifndef REPLAY_COMMON_H
#define REPLAY_COMMON_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <fcntl.h>
#include <vector>
namespace rp
{
    inline std::mt19937_64& rng() { static std::mt19937_64 r(std::getenv("VERIF_SEED") ? std::strtoull(std::getenv("VERIF_SEED"), 0, 10) : 1); return r; }
    inline uint64_t rnd(uint64_t n) { return n ? rng()() % n : 0; }
    inline bool thorough() { const char* t = std::getenv("VERIF_TIER"); return t && !std::strcmp(t, "thorough"); }
    inline long scale(long q, long t) { return thorough() ? t : q; }
    struct Stat { long cases = 0; long fails = 0; std::set<uint64_t> seen; };
    inline Stat& stat() { static Stat s; return s; }
    inline int& curfd() { static int fd = -2; return fd; }
    // announce the case about to run (kept in a file, so that a crash still names its input)
    inline void at(const std::string& c)
    {
        int& fd = curfd();
        if (fd == -2) { const char* p = std::getenv("REPLAY_CURRENT"); fd = p ? open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644) : -1; }
        if (fd >= 0) { std::string s = c.substr(0, 6000); s += "\n"; if (pwrite(fd, s.data(), s.size(), 0) < 0 || ftruncate(fd, s.size()) < 0) {} }
        ++stat().cases;
        stat().seen.insert(std::hash<std::string>()(c));
    }
    // report a failing case; key identifies the kind of failure (for the known-findings list)
    inline void fail(const std::string& key, const std::string& what)
    {
        std::cout << "FAIL key=" << key << " " << what << std::endl;
        if (++stat().fails >= 10) { std::cout << "cases=" << stat().cases << " distinct=" << stat().seen.size() << std::endl; std::_Exit(1); }
    }
    inline std::string hex(const std::string& s)
    {
        static const char* d = "0123456789abcdef"; std::string r = "\"";
        for (unsigned char c : s) { if (c >= 32 && c < 127 && c != '\\' && c != '"') r += c; else { r += "\\x"; r += d[c >> 4]; r += d[c & 15]; } }
        return r + "\"";
    }
    template <typename T> std::string list(const T& v) { std::ostringstream o; o << "["; bool f = true; for (const auto& x : v) { if (!f) o << ","; f = false; o << x; } o << "]"; return o.str(); }
    inline int done() { std::cout << "cases=" << stat().cases << " distinct=" << stat().seen.size() << std::endl; return stat().fails ? 1 : 0; }
    // byte strings biased towards UTF-8 structure
    inline std::string bytes(size_t n, int mode)
    {
        static const unsigned char edge[] = { 0x00, 0x0A, 0x0D, 0x41, 0x7F, 0x80, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xF7, 0xF8, 0xFF, 0x9F, 0xA0, 0x8F, 0x90 };
        std::string s;
        while (s.size() < n) {
            switch (mode) {
                case 0: s += char(rnd(256)); break;
                case 1: s += char(edge[rnd(sizeof edge)]); break;
                case 2: { // well-formed
                    static const uint32_t cps[] = { 0, 10, 65, 0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF, 10, 66,
                        0x0B, 0x0C, 0x0D, 0x1C, 0x1E, 0x85, 0xA0, 0x100, 0xAD, 0x200B, 0x2028, 0x2029, 0x202F, 0x3000, 0xFEFF, 0xFFFE, 0x1F600, 9, 32, 10, 13 };
                    uint32_t c = rnd(3) ? cps[rnd(sizeof cps / sizeof *cps)] : rnd(2) ? rnd(0x110000) : rnd(0x2100);
                    if (c >= 0xD800 && c < 0xE000) c = 0xE000;
                    if (c < 0x80) s += char(c);
                    else if (c < 0x800) { s += char(0xC0 | c >> 6); s += char(0x80 | (c & 63)); }
                    else if (c < 0x10000) { s += char(0xE0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
                    else { s += char(0xF0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
                    break; }
                default: s += char("ab\n\xC3\xA9 ,;="[rnd(9)]); break;
            }
        }
        return s;
    }
    // reference UTF-8 decoder (Unicode table 3-7): length of the well-formed sequence at i, or 0
    inline int wflen(const std::string& s, size_t i, uint32_t* cp = 0)
    {
        auto b = [&](size_t k) -> int { return k < s.size() ? (unsigned char)s[k] : -1; };
        auto c = [&](size_t k, int lo, int hi) { int x = b(k); return x >= lo && x <= hi; };
        int x = b(i); uint32_t v = 0; int n = 0;
        if (x < 0) return 0;
        if (x < 0x80) { n = 1; v = x; }
        else if (x >= 0xC2 && x <= 0xDF) { if (c(i + 1, 0x80, 0xBF)) { n = 2; v = (x & 31) << 6 | (b(i + 1) & 63); } }
        else if (x >= 0xE0 && x <= 0xEF) { if (c(i + 1, x == 0xE0 ? 0xA0 : 0x80, x == 0xED ? 0x9F : 0xBF) && c(i + 2, 0x80, 0xBF)) { n = 3; v = (x & 15) << 12 | (b(i + 1) & 63) << 6 | (b(i + 2) & 63); } }
        else if (x >= 0xF0 && x <= 0xF4) { if (c(i + 1, x == 0xF0 ? 0x90 : 0x80, x == 0xF4 ? 0x8F : 0xBF) && c(i + 2, 0x80, 0xBF) && c(i + 3, 0x80, 0xBF)) { n = 4; v = (x & 7) << 18 | (b(i + 1) & 63) << 12 | (b(i + 2) & 63) << 6 | (b(i + 3) & 63); } }
        if (n && cp) *cp = v;
        return n;
    }
}
#endif
