// SOURCES: packages/apib-parser/src/markdown-parser/MarkdownNode.cc packages/apib-parser/src/markdown-parser/ByteBuffer.cc
// random markdown trees are copied and assigned (to themselves, from and to their own descendants) and compared with an independent picture
#include "common.h"
#include "MarkdownNode.h"
#include <memory>
using mdp::MarkdownNode;
static std::string pic(const MarkdownNode& n)
{
    std::string s = std::to_string(int(n.type)) + "/" + rp::hex(n.text) + "/" + std::to_string(n.data) + "/";
    for (auto& r : n.sourceMap) s += std::to_string(r.location) + ":" + std::to_string(r.length) + ";";
    s += n.hasParent() ? "^" + std::to_string(reinterpret_cast<size_t>(&n.parent())) : "^-";
    s += "[";
    for (auto& c : n.children()) s += pic(c) + ",";
    return s + "]";
}
static void collect(MarkdownNode& n, std::vector<MarkdownNode*>& v) { v.push_back(&n); for (auto& c : n.children()) collect(c, v); }
static void grow(MarkdownNode& n, int depth)
{
    static const mdp::MarkdownNodeType ty[] = { mdp::RootMarkdownNodeType, mdp::CodeMarkdownNodeType, mdp::ParagraphMarkdownNodeType, mdp::ListItemMarkdownNodeType, mdp::TableCellMarkdownNodeType, mdp::UndefinedMarkdownNodeType };
    static const char* tx[] = { "", "a", "text with \xC3\xA9", "a long text that does not fit a small buffer", "\n" };
    n.type = ty[rp::rnd(6)]; n.text = tx[rp::rnd(5)]; n.data = int(rp::rnd(7)) - 3;
    for (int i = rp::rnd(4); i--;) n.sourceMap.push_back(mdp::BytesRange(rp::rnd(100), rp::rnd(20)));
    for (int i = depth > 0 ? rp::rnd(4) : 0; i--;) {
        if (rp::rnd(2)) n.children().push_back(MarkdownNode(mdp::HeaderMarkdownNodeType, &n, "h", 2)); else n.children().emplace_back();
        if (rp::rnd(3)) n.children().back().setParent(&n);
        grow(n.children().back(), depth - 1);
    }
}
static void differ(MarkdownNode& n) { std::vector<MarkdownNode*> v; collect(n, v); for (auto p : v) { p->text += "!"; p->data += 10; p->type = mdp::HTMLMarkdownNodeType; p->sourceMap.push_back(mdp::BytesRange(7, 7)); p->setParent(p); } v[rp::rnd(v.size())]->children().emplace_back(); }
int main()
{
    MarkdownNode fresh; rp::at("fresh node");
    if (fresh.type != mdp::UndefinedMarkdownNodeType || !fresh.text.empty() || fresh.data != 0 || !fresh.sourceMap.empty() || fresh.hasParent() || !fresh.children().empty()) rp::fail("fresh", pic(fresh));
    try { fresh.parent(); rp::fail("no-parent", "parent() of a node without parent returned"); } catch (const char*) {}
    { MarkdownNode n(mdp::QuoteMarkdownNodeType, &fresh, "t", 5); if (n.type != mdp::QuoteMarkdownNodeType || &n.parent() != &fresh || n.text != "t" || n.data != 5 || !n.children().empty() || !n.sourceMap.empty()) rp::fail("constructed", pic(n)); n.setParent(nullptr); if (n.hasParent()) rp::fail("set-parent", pic(n)); }
    for (long i = 0, n = rp::scale(4000, 60000); i < n; ++i) {
        auto a = std::make_unique<MarkdownNode>(), b = std::make_unique<MarkdownNode>(); grow(*a, 3); grow(*b, 2);
        std::string pa = pic(*a), pb = pic(*b), d = pa + " and " + pb; rp::at("copy " + d);
        auto is = [&](const char* k, const MarkdownNode& x, const std::string& w) { auto g = pic(x); if (g != w) rp::fail(k, d + ": have " + g + " want " + w); };
        MarkdownNode c(*a); is("copy", c, pa); is("copy-source", *a, pa);
        { MarkdownNode x(c); differ(x); is("independent", c, pa); MarkdownNode y(c); std::string py = pic(y); differ(c); is("independent", y, py); is("independent", *a, pa); }
        rp::at("assign " + d); c = *b; is("assign", c, pb); is("assign-source", *b, pb); differ(c); is("assign-independent", *b, pb);
        rp::at("self-assign " + pa); { MarkdownNode& s = *a; *a = s; is("self-assign", *a, pa); }
        std::vector<MarkdownNode*> v; collect(*a, v);
        MarkdownNode* f = v[rp::rnd(v.size())]; std::vector<MarkdownNode*> w; collect(*f, w); MarkdownNode* t = w[rp::rnd(w.size())];
        std::string pt = pic(*t), pf = pic(*f);
        if (rp::rnd(2)) { rp::at("assign " + pt + " to its ancestor " + pf); *f = *t; is("assign-from-descendant", *f, pt); }
        else { rp::at("assign " + pf + " to its descendant " + pt); *t = *f; is("assign-to-descendant", *t, pf); }
        { MarkdownNode& root = *v[0]; std::string pr = pic(root); rp::at("copy and destroy " + pr); MarkdownNode keep(root); a.reset(); is("outlives", keep, pr); b = nullptr; }
    }
    return rp::done();
}
