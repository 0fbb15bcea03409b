// C24: every kind queried as every kind
// SOURCES: @REFRACT
#include "refract.h"
#include "refract/TypeQueryVisitor.h"
#include "refract/ElementUtils.h"
#include "refract/Visitor.h"
using namespace rf;
template <typename T> static void as(IElement* e, int want, int k, const std::string& d)
{
    const IElement* c = e; const IElement* r; bool is = e && want == k;
    auto chk = [&](const IElement* got, const char* how) { if (got != (is ? e : nullptr)) rp::fail("as", d + std::string(" queried as kind ") + std::to_string(want) + " by " + how); };
    chk(TypeQueryVisitor::as<T>(e), "as<T>(T*)"); chk(TypeQueryVisitor::as<T>(c), "as<T>(const*)"); chk(TypeQueryVisitor::as<const T>(c), "as<const T>(const*)"); chk(TypeQueryVisitor::as<const T>(e), "as<const T>(T*)");
    chk(refract::get<T>(e), "get<T>"); chk(refract::get<const T>(c), "get<const T>"); (void)r;
}
int main()
{
    static const TypeQueryVisitor::ElementType code[] = { TypeQueryVisitor::Null, TypeQueryVisitor::Holder, TypeQueryVisitor::String, TypeQueryVisitor::Number, TypeQueryVisitor::Boolean, TypeQueryVisitor::Array, TypeQueryVisitor::Member, TypeQueryVisitor::Object, TypeQueryVisitor::Enum, TypeQueryVisitor::Ref, TypeQueryVisitor::Extend, TypeQueryVisitor::Option, TypeQueryVisitor::Select };
    GenOpt go;
    auto all = [&](IElement* e, int k, const std::string& d) {
        as<NullElement>(e, 0, k, d); as<HolderElement>(e, 1, k, d); as<StringElement>(e, 2, k, d); as<NumberElement>(e, 3, k, d); as<BooleanElement>(e, 4, k, d); as<ArrayElement>(e, 5, k, d); as<MemberElement>(e, 6, k, d);
        as<ObjectElement>(e, 7, k, d); as<EnumElement>(e, 8, k, d); as<RefElement>(e, 9, k, d); as<ExtendElement>(e, 10, k, d); as<OptionElement>(e, 11, k, d); as<SelectElement>(e, 12, k, d); };
    rp::at("null pointer"); all(nullptr, -1, "null pointer");
    for (long i = 0, n = rp::scale(6000, 60000); i < n; ++i) {
        int k = i % 13; auto e = gen(2, go, k); std::string d = dump(e.get()); rp::at(d);
        all(e.get(), k, d);
        TypeQueryVisitor q, q2; Visit(q, *e); VisitBy(*e, q2);
        if (q.get() != code[k] || q2.get() != code[k]) rp::fail("kind", d + " reported as " + std::to_string(q.get()));
        if (dump(e.get()) != d) rp::fail("changed", d);
    }
    return rp::done();
}
