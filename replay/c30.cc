// C30: JSON and YAML text against independent readers and an independent layout
// STUBS
// SOURCES: packages/drafter/src/utils/so/JsonIo.cc packages/drafter/src/utils/so/YamlIo.cc packages/drafter/src/utils/so/Value.cc
#include "common.h"
#include "utils/so/JsonIo.h"
#include "utils/so/YamlIo.h"
#include <sstream>
#include <memory>
using namespace drafter::utils;
using std::string;
// ---- the harness's own value
struct Node { char k = 'z'; string s; std::vector<std::pair<string, Node>> m; }; // z null, t, f, s string, n number, o object, a array
static bool same(const Node& a, const Node& b)
{
    if (a.k != b.k || a.s != b.s || a.m.size() != b.m.size()) return false;
    for (size_t i = 0; i < a.m.size(); ++i) if (a.m[i].first != b.m[i].first || !same(a.m[i].second, b.m[i].second)) return false;
    return true;
}
static string show(const Node& n)
{
    if (n.k == 's') return "\"" + rp::hex(n.s) + "\""; if (n.k == 'n') return n.s; if (n.k != 'o' && n.k != 'a') return string(1, n.k);
    string r(1, n.k); r += "("; for (auto& x : n.m) r += (n.k == 'o' ? rp::hex(x.first) + "=" : "") + show(x.second) + " "; return r + ")";
}
static so::Value make(const Node& n)
{
    switch (n.k) {
        case 'z': return so::Null{}; case 't': return so::True{}; case 'f': return so::False{};
        case 's': return so::String{ n.s }; case 'n': return so::Number{ n.s };
        case 'o': { so::Object o; for (auto& x : n.m) o.data.emplace_back(x.first, make(x.second)); return so::Value(std::move(o)); }
        default: { so::Array a; for (auto& x : n.m) a.data.emplace_back(make(x.second)); return so::Value(std::move(a)); }
    }
}
// ---- strings
static void put(string& o, unsigned c)
{
    if (c < 0x80) o += char(c); else if (c < 0x800) { o += char(0xC0 | c >> 6); o += char(0x80 | c % 64); }
    else if (c < 0x10000) { o += char(0xE0 | c >> 12); o += char(0x80 | c / 64 % 64); o += char(0x80 | c % 64); }
    else { o += char(0xF0 | c >> 18); o += char(0x80 | c / 4096 % 64); o += char(0x80 | c / 64 % 64); o += char(0x80 | c % 64); }
}
static unsigned scalar()
{
    static const unsigned E[] = { 0, 7, 8, 9, 10, 11, 12, 13, 27, 31, 32, 34, 39, 47, 58, 92, 126, 127, 128, 0x84, 0x85, 0x86, 0x9F, 0xA0, 0xA1, 0xFF, 0x100, 0x7FF, 0x800, 0x2027, 0x2028, 0x2029, 0x202A, 0xD7FF, 0xE000, 0xFEFE, 0xFEFF, 0xFF00, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1FFFF, 0xFFFFF, 0x10FFFF };
    switch (rp::rnd(4)) { case 0: return E[rp::rnd(sizeof E / sizeof *E)]; case 1: return rp::rnd(160); case 2: return 'a' + rp::rnd(26); default: for (;;) { unsigned c = rp::rnd(0x110000) >> rp::rnd(12); if (c < 0xD800 || c > 0xDFFF) return c; } }
}
static string utf8(int n) { string r; while (n-- > 0) put(r, scalar()); return r; }
static string key(bool bytes)
{
    static const char* W[] = { "null", "Null", "NULL", "true", "True", "TRUE", "false", "False", "FALSE", "", "nulls", "tru", "a-b", "a_b", "Z", "z", "A", "a", "[", "`", "@", "{", "a1", "1", "-", "a:", "~" };
    switch (rp::rnd(4)) { case 0: return W[rp::rnd(sizeof W / sizeof *W)]; case 1: { string r; for (int i = 1 + rp::rnd(6); i > 0; --i) r += (rp::rnd(2) ? 'a' : 'A') + rp::rnd(26); return r; } default: return bytes ? rp::bytes(rp::rnd(6), 0) : utf8(rp::rnd(6)); }
}
static Node gen(int depth, bool bytes)
{
    Node n; n.k = "ztfsnoaoas"[rp::rnd(depth > 0 ? 10 : 5)];
    if (n.k == 's') n.s = bytes ? rp::bytes(rp::rnd(12), 0) : utf8(rp::rnd(12));
    static const char* NUM[] = { "0", "-1", "42", "1.5", "-0.25", "1e10", "123456789012345678901234567890" };
    if (n.k == 'n') n.s = NUM[rp::rnd(7)];
    if (n.k == 'o' || n.k == 'a') for (int i = rp::rnd(5); i > 0; --i) n.m.emplace_back(n.k == 'o' ? key(bytes) : "", gen(depth - 1, bytes));
    return n;
}
// ---- independent readers
struct Bad { string why; };
struct Rd {
    const string& t; size_t p = 0; bool json;
    int peek() { return p < t.size() ? (unsigned char)t[p] : -1; }
    void need(const string& s) { if (t.compare(p, s.size(), s)) throw Bad{ "expected '" + s + "' at " + std::to_string(p) }; p += s.size(); }
    unsigned hex(int n) { unsigned r = 0; while (n-- > 0) { int c = peek(); ++p; if (c >= '0' && c <= '9') r = r * 16 + c - '0'; else if (c >= 'a' && c <= 'f') r = r * 16 + c - 'a' + 10; else if (c >= 'A' && c <= 'F') r = r * 16 + c - 'A' + 10; else throw Bad{ "hex digit" }; } return r; }
    string str()
    {
        need("\""); string r;
        for (;;) {
            int c = peek(); ++p;
            if (c < 0) throw Bad{ "unterminated string" };
            if (c == '"') return r;
            if (c < 32) throw Bad{ "control character in string" };
            if (c != '\\') { r += char(c); continue; }
            c = peek(); ++p; const string J = "\"\\/bfnrt", JV = "\"\\/\b\f\n\r\t";
            if (json) { auto i = J.find(char(c)); if (i != string::npos) r += JV[i]; else if (c == 'u') put(r, hex(4)); else throw Bad{ "escape" }; continue; }
            switch (c) {
                case '0': put(r, 0); break; case 'a': put(r, 7); break; case 'b': put(r, 8); break; case 't': put(r, 9); break; case 'n': put(r, 10); break; case 'v': put(r, 11); break;
                case 'f': put(r, 12); break; case 'r': put(r, 13); break; case 'e': put(r, 27); break; case ' ': case '"': case '/': case '\\': put(r, c); break;
                case 'N': put(r, 0x85); break; case '_': put(r, 0xA0); break; case 'L': put(r, 0x2028); break; case 'P': put(r, 0x2029); break;
                case 'x': put(r, hex(2)); break; case 'u': put(r, hex(4)); break; case 'U': put(r, hex(8)); break; default: throw Bad{ "escape" };
            }
        }
    }
    void ws() { if (json) while (peek() == ' ' || peek() == '\n') ++p; }
    Node flow()
    {
        Node n; int c = peek();
        if (c == '"') { n.k = 's'; n.s = str(); }
        else if (c == 'n') need("null"); else if (c == 't') { need("true"); n.k = 't'; } else if (c == 'f') { need("false"); n.k = 'f'; }
        else if (c == '{' || c == '[') {
            n.k = c == '{' ? 'o' : 'a'; ++p; ws(); char e = c == '{' ? '}' : ']';
            if (peek() == e) { ++p; return n; }
            if (!json) throw Bad{ "flow collection" };
            for (;;) { ws(); string k; if (e == '}') { k = str(); ws(); need(":"); ws(); } n.m.emplace_back(k, flow()); ws(); if (peek() == ',') { ++p; continue; } need(string(1, e)); return n; }
        } else { n.k = 'n'; while (p < t.size() && string("0123456789+-.eE").find(t[p]) != string::npos) n.s += t[p++]; if (n.s.empty()) throw Bad{ "value" }; }
        return n;
    }
    Node doc() { ws(); Node n = flow(); ws(); if (p != t.size()) throw Bad{ "trailing text" }; return n; }
    // YAML block collections
    size_t indent() { size_t q = p; while (q < t.size() && t[q] == ' ') ++q; return q - p; }
    Node inl(size_t ind)
    {
        if (peek() == ' ') { while (peek() == ' ') ++p; Node n = flow(); if (peek() != '\n' && peek() != -1) throw Bad{ "text behind a value" }; return n; }
        need("\n"); size_t i = indent(); if (i <= ind) throw Bad{ "indentation" }; return block(i);
    }
    Node block(size_t ind)
    {
        Node n; bool first = true;
        for (;; first = false) {
            if (indent() != ind || p >= t.size()) { if (first) throw Bad{ "block" }; --p; return n; }
            p += ind; int c = peek();
            if (c == '-') { if (!first && n.k != 'a') throw Bad{ "mixed" }; n.k = 'a'; ++p; n.m.emplace_back("", inl(ind)); }
            else {
                if (!first && n.k != 'o') throw Bad{ "mixed" };
                n.k = 'o'; string k; if (c == '"') k = str(); else {
                    while (p < t.size() && t[p] != ':' && t[p] != '\n') k += t[p++];
                    if (k.empty()) throw Bad{ "key is read as null" };
                    for (auto w : { "null", "Null", "NULL", "~", "true", "True", "TRUE", "false", "False", "FALSE" }) if (k == w) throw Bad{ "key is read as " + k };
                    for (unsigned char x : k) if (!std::isalnum(x) && x != '_') throw Bad{ "plain key" };
                    if (std::isdigit((unsigned char)k[0])) throw Bad{ "key is read as a number" };
                }
                need(":"); n.m.emplace_back(k, inl(ind));
            }
            if (peek() == -1) return n;
            need("\n");
        }
    }
    Node ydoc() { Node n; int c = peek(); bool q = c == '"' && t.find("\":") != string::npos; if (c == '-' && p + 1 < t.size() && (t[1] == ' ' || t[1] == '\n')) n = block(0); else { size_t s = p; try { n = flow(); if (p != t.size()) throw Bad{ "" }; } catch (Bad&) { p = s; n = block(0); } } (void)q; if (p != t.size()) throw Bad{ "trailing text" }; return n; }
};
// ---- independent layout
static string pad(int d) { return string(2 * d, ' '); }
static string lit(const Node& n, string (*q)(const string&)) { return n.k == 'z' ? "null" : n.k == 't' ? "true" : n.k == 'f' ? "false" : n.k == 's' ? q(n.s) : n.s; }
static string jq(const string& s) { string r = "\""; for (unsigned char c : s) { static const string A = "\"\\\b\f\n\r\t", B = "\"\\bfnrt"; auto i = A.find(char(c)); char u[8]; if (i != string::npos) { r += '\\'; r += B[i]; } else if (c < 32) { std::snprintf(u, 8, "\\u00%x%x", c / 16, c % 16); r += u; } else r += char(c); } return r + "\""; }
static string jt(const Node& n, int d, bool pk)
{
    if (n.k != 'o' && n.k != 'a') return lit(n, jq);
    string r(1, n.k == 'o' ? '{' : '['); size_t i = 0;
    for (auto& x : n.m) { if (!pk) r += "\n" + pad(d + 1); if (n.k == 'o') r += jq(x.first) + (pk ? ":" : ": "); r += jt(x.second, d + 1, pk); if (++i < n.m.size()) r += ","; }
    if (!pk && i) r += "\n" + pad(d);
    return r + (n.k == 'o' ? "}" : "]");
}
static void check(const Node& n, bool bytes)
{
    so::Value v = make(n); string d = show(n);
    for (int m = bytes ? 0 : 0; m < (bytes ? 2 : 3); ++m) {
        const char* nm = m == 0 ? "JSON" : m == 1 ? "packed JSON" : "YAML"; rp::at(string(nm) + " of " + d);
        std::ostringstream o; o << "^"; std::ostream* r = m == 0 ? &so::serialize_json(o, v) : m == 1 ? &so::serialize_json(o, v, so::packed{}) : &so::serialize_yaml(o, v);
        if (r != &o) rp::fail("stream", d);
        string t = o.str(); if (t.substr(0, 1) != "^") { rp::fail("overwritten", d); continue; } t = t.substr(1);
        try { Rd x{ t, 0, m < 2 }; Node b = m < 2 ? x.doc() : x.ydoc(); if (!same(n, b)) rp::fail("read back", string(nm) + " of " + d + " reads as " + show(b) + ": " + rp::hex(t)); }
        catch (Bad& b) { rp::fail("unreadable", string(nm) + " of " + d + ": " + b.why + ": " + rp::hex(t)); }
        if (m < 2 && t != jt(n, 0, m == 1)) rp::fail("layout", string(nm) + " of " + d + ": " + rp::hex(t));
        if (m == 2) { // every line is indented by two spaces per level
            std::vector<string> want; struct L { static void go(const Node& n, int d, std::vector<string>& w) { for (auto& x : n.m) { w.push_back(pad(d) + (n.k == 'a' ? "-" : "")); if (!x.second.m.empty()) go(x.second, d + 1, w); } } }; L::go(n, 0, want);
            if (!n.m.empty()) { std::istringstream is(t); string l; size_t i = 0; for (; std::getline(is, l); ++i) if (i >= want.size() || l.compare(0, want[i].size(), want[i]) || l.size() <= want[i].size() && want[i].back() != '-' || l[want[i].size()] == ' ' && want[i].find('-') == string::npos) break; if (i != want.size() || t.back() == '\n') rp::fail("layout", "YAML of " + d + ": " + rp::hex(t)); }
        }
    }
}
int main()
{
    for (int c = 0; c < 256; ++c) { Node n; n.k = 's'; n.s = "a" + string(1, char(c)) + "b"; check(n, true); Node o; o.k = 'o'; Node v; v.k = 't'; o.m.emplace_back(string(1, char(c)), v); check(o, true); if (c < 128) { check(n, false); check(o, false); } }
    for (unsigned c = 0; c < 0x110000; c += (c < 0x3000 || rp::scale(0, 1) ? 1 : 1 + rp::rnd(90))) if (c < 0xD800 || c > 0xDFFF) { Node n; n.k = 's'; put(n.s, c); check(n, false); if (c % 16 == 0) { Node o; o.k = 'o'; o.m.emplace_back(n.s, n); check(o, false); } }
    for (long i = 0, k = rp::scale(20000, 400000); i < k; ++i) { bool b = rp::rnd(3) == 0; check(gen(rp::rnd(6), b), b); }
    for (int d = 0; d < 60; ++d) { Node n; for (int i = 0; i < d; ++i) { Node o; o.k = rp::rnd(2) ? 'o' : 'a'; o.m.emplace_back(o.k == 'o' ? "k" : "", n); n = o; } check(n, false); }
    // ill-formed bytes: written without a crash, every byte stays inside the quotes
    for (long i = 0, k = rp::scale(20000, 400000); i < k; ++i) { string s = rp::bytes(rp::rnd(10), 0); rp::at("YAML of " + rp::hex(s)); std::ostringstream o; so::serialize_yaml(o, so::Value(so::String{ s })); string t = o.str(); try { Rd x{ t, 0, false }; x.str(); if (x.p != t.size()) throw Bad{ "trailing text" }; } catch (Bad& b) { rp::fail("unreadable", "YAML of " + rp::hex(s) + ": " + b.why); } }
    return rp::done();
}
