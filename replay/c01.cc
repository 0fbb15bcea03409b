// C01: decode_one against the Unicode table of well-formed sequences
#include "common.h"
#include "utils/Utf8.h"
using namespace drafter::utils::utf8;
static void one(const std::string& s)
{
    // exact-size heap copy so that the sanitizer sees any access outside it
    std::vector<char> b(s.begin(), s.end());
    for (size_t i = 0; i <= s.size(); ++i) {
        rp::at("decode_one(" + rp::hex(s) + ", at " + std::to_string(i) + ")");
        const char* f = b.data() + i; const char* l = b.data() + b.size();
        auto r = decode_one<const char*>(f, l);
        long n = r.second - f; uint32_t v = 0; int w = rp::wflen(s, i, &v);
        std::string d = "decode_one(" + rp::hex(s.substr(i)) + ") = (" + std::to_string(r.first) + ", +" + std::to_string(n) + ")";
        if (i == s.size()) { if (r.first != 0xFFFFFFFF || n != 0) rp::fail("end", d); continue; }
        if (n < 1 || n > long(s.size() - i)) { rp::fail("consumed", d); continue; }
        if (w) { if (r.first != v || n != w) rp::fail("wellformed", d + ", expected " + std::to_string(v) + "/" + std::to_string(w)); }
        else if (r.first != 0xFFFD) rp::fail("malformed", d + ", expected 65533");
    }
    std::string str(s);
    using tested = input_iterator<std::string::const_iterator>;
    tested it(str), e(str.end(), str.end()); size_t k = 0;
    for (; it != e; ++it) if (++k > s.size()) { rp::fail("termination", "iteration over " + rp::hex(s)); break; }
}
int main()
{
    one("");
    for (int a = 0; a < 256; ++a) { one(std::string(1, char(a))); for (int b = 0; b < 256; b += (a < 0xC0 ? 17 : 1)) { one(std::string{ char(a), char(b) }); one(std::string{ char(a), char(b), 'x', '\x80', '\x80' }); one(std::string{ char(a), char(b), '\x80', 'y', '\x80' }); one(std::string{ char(a), char(b), '\x80', '\x80', 'z' }); one(std::string{ char(a), char(b), '\xBF', '\xBF', '\xBF' }); } }
    for (long i = 0; i < rp::scale(20000, 2000000); ++i) one(rp::bytes(rp::rnd(9), i % 4));
    return rp::done();
}
