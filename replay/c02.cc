// C02: encode against the standard's shortest form, decode_one(encode(c)) == c (exhaustive over all scalar values)
#include "common.h"
#include "utils/Utf8.h"
using namespace drafter::utils::utf8;
static std::string ref(uint32_t c)
{
    std::string s;
    if (c < 0x80) s += char(c);
    else if (c < 0x800) { s += char(0xC0 | c >> 6); s += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += char(0xE0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    else { s += char(0xF0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    return s;
}
int main()
{
    for (uint32_t c = 0; c < 0x110000; ++c) {
        if (c >= 0xD800 && c < 0xE000) continue;
        if (c % 257 == 0) rp::at("encode(" + std::to_string(c) + ")"); else ++rp::stat().cases;
        std::string pre = c % 3 ? "x\xC3" : "", out = pre, e = pre + ref(c);
        encode(codepoint(c), std::back_inserter(out));
        if (out != e) { rp::fail("encode", "encode(" + std::to_string(c) + ") after " + rp::hex(pre) + " gives " + rp::hex(out)); continue; }
        std::string t = out.substr(pre.size()); size_t n = t.size();
        static const char* tails[] = { "", "\x80", "a", "\xBF\xBF\xBF", "\xF0" };
        for (const char* x : tails) {
            std::string w = t + x; auto r = decode_one<const char*>(w.data(), w.data() + w.size());
            if (r.first != c || size_t(r.second - w.data()) != n) { rp::fail("inverse", "decode_one(encode(" + std::to_string(c) + ") + " + rp::hex(x) + ") = " + std::to_string(r.first)); break; }
        }
    }
    return rp::done();
}
