U8='packages/drafter/src/utils/Utf8.h'; BB='packages/apib-parser/src/markdown-parser/ByteBuffer.cc'; BH='packages/apib-parser/src/markdown-parser/ByteBuffer.h'; SM='packages/drafter/src/SourceMapUtils.cc'
SEEDS={}
SEEDS['c01-last-surrogate']=dict(property='C01',edits=[(U8,'if (result >= 0xD800 && result <= 0xDFFF)','if (result >= 0xD800 && result < 0xDFFF)')],san=True,
 needs='the encoding of the single surrogate U+DFFF (ED BF BF)',breaks='the surrogate is delivered as a character',
 demo='''#include "utils/Utf8.h"
#include <string>
int main(){ std::string s("\\xED\\xBF\\xBF!"); auto r=drafter::utils::utf8::decode_one<const char*>(s.data(),s.data()+4); return r.first==0xFFFD ? 0 : 1; }
''')
SEEDS['c08-merge-skips-rest']=dict(property='C08',edits=[(BH,'if (val.size() > 1) {','if (val.size() > 2) {')],
 needs='an adjacent first range and exactly one further range in the appended set',breaks='the second range of the appended set is lost',
 demo='''#include "ByteBuffer.h"
int main(){ mdp::BytesRangeSet a,b; a.push_back(mdp::BytesRange(0,4)); b.push_back(mdp::BytesRange(4,2)); b.push_back(mdp::BytesRange(10,3)); a.append(b); return a.size()==2 && a[0].length==6 && a[1].location==10 ? 0 : 1; }
''')
SEEDS['c07-overshoot-drops-prefix']=dict(property='C07',edits=[(BB,'''                s << byteBuffer.substr(it->location, length - it->location);
                return s.str();''','''                return byteBuffer.substr(it->location, length - it->location);''')],
 needs='several ranges of which the last overshoots the buffer by one byte',breaks='the bytes selected by the earlier ranges are dropped',srcs=[BB],
 demo='''#include "ByteBuffer.h"
int main(){ mdp::BytesRangeSet a; a.push_back(mdp::BytesRange(0,2)); a.push_back(mdp::BytesRange(4,4)); return mdp::MapBytesRangeSet(a,"abcdefg")=="abefg" ? 0 : 1; }
''')
SEEDS['c05-index-end']=dict(property='C05',edits=[(BB,'if (pos >= index.size()) {','if (pos + 1 >= index.size()) {')],srcs=[BB],
 needs='the indexed conversion of a range ending exactly one byte before the end of the buffer',breaks='the length counts one character too many (or the last byte\'s character)',
 demo='''#include "ByteBuffer.h"
int main(){ mdp::ByteBuffer b("abcdef"); mdp::ByteBufferCharacterIndex x; mdp::BuildCharacterIndex(x,b); mdp::BytesRangeSet r; r.push_back(mdp::BytesRange(1,4)); return mdp::BytesRangeSetToCharactersRangeSet(r,x)[0].length==4 ? 0 : 1; }
''')
SEEDS['c03-lone-cr']=dict(property='C03',edits=[(SM,"if (*it == '\\n')","if (*it == '\\n' || *it == 0x2028)")],srcs=[SM],
 needs='a U+2028 line separator in the source',breaks='a line start is recorded that no line feed produced',
 demo='''#include "SourceMapUtils.h"
int main(){ return drafter::GetLinesEndIndex("a\\xE2\\x80\\xA8" "b\\n").size()==2 ? 0 : 1; }
''')
D='packages/drafter/src/'; R=D+'refract/'
RF='''#include <cstring>
#include <iostream>
#include "refract/Element.h"
#include "refract/InfoElements.h"
#include "refract/InfoElementsUtils.h"
#include "refract/TypeQueryVisitor.h"
#include "refract/Registry.h"
#include "refract/Exception.h"
#include "refract/Utils.h"
#include "refract/IsExpandableVisitor.h"
#include "refract/VisitorUtils.h"
using namespace refract;
typedef std::unique_ptr<IElement> P;
static P S(const char* s){ return from_primitive(std::string(s)); }
'''
def rf(i,prop,edits,needs,breaks,main,**kw): SEEDS[i]=dict(property=prop,edits=edits,needs=needs,breaks=breaks,srcs=['@REFRACT'],demo=RF+main+'\n',**kw)
SEEDS['c02-ffff-boundary']=dict(property='C02',edits=[(U8,'} else if (c < 0x10000) { // three bytes','} else if (c < 0xFFFF) { // three bytes')],
 needs='the single codepoint U+FFFF',breaks='U+FFFF is encoded as an overlong four byte sequence',
 demo='''#include "utils/Utf8.h"
#include <string>
#include <iterator>
int main(){ std::string s; drafter::utils::utf8::encode(0xFFFF,std::back_inserter(s)); return s=="\\xEF\\xBF\\xBF" ? 0 : 1; }
''')
SEEDS['c02-plane16-mask']=dict(property='C02',edits=[(U8,'byte b1 = ((c >> 18) & 0b00000111) | 0b11110000;','byte b1 = ((c >> 18) & 0b00000011) | 0b11110000;')],
 needs='a codepoint of the last plane (U+100000 and above)',breaks='plane 16 characters are encoded as characters of plane 0 (overlong)',
 demo='''#include "utils/Utf8.h"
#include <string>
#include <iterator>
int main(){ std::string s; drafter::utils::utf8::encode(0x10FFFD,std::back_inserter(s)); return s=="\\xF4\\x8F\\xBF\\xBD" ? 0 : 1; }
''')
SEEDS['c04-short-index']=dict(property='C04',edits=[(SM,'if (linesEndIndex.empty()) { // to avoid std::prev() on empty','if (linesEndIndex.size() < 3) { // to avoid std::prev() on empty')],srcs=[SM],
 needs='a source of exactly one line feed (an index of two entries)',breaks='ranges in a one line source get no position at all',
 demo='''#include "SourceMapUtils.h"
int main(){ std::string s("abcdef\\nx"); auto x=drafter::GetLinesEndIndex(s); mdp::CharactersRange r(2,3); auto a=drafter::GetLineFromMap(x,r); return a.fromLine==1 && a.fromColumn==3 && a.toLine==1 && a.toColumn==5 ? 0 : 1; }
''')
SEEDS['c06-astral-two-units']=dict(property='C06',edits=[(BB,'#define UTF8_CHAR_LEN(byte) ((0xE5000000 >>','#define UTF8_CHAR_LEN(byte) ((0xA5000000 >>')],srcs=[BB],
 needs='a four byte character in the source',breaks='characters outside the basic plane are indexed as two characters',
 demo='''#include "ByteBuffer.h"
int main(){ mdp::ByteBuffer b("a\\xF0\\x9F\\x98\\x80" "b"); mdp::ByteBufferCharacterIndex x; mdp::BuildCharacterIndex(x,b); return x[4]==1 && x[5]==2 ? 0 : 1; }
''')
SEEDS['c09-prefix-json']=dict(property='C09',edits=[('packages/apib/src/MediaType.cc','''        return (lhs.size() == rhs.size())
            && (std::equal( //
                lhs.cbegin(),
                lhs.cend(),
                rhs.cbegin(),''','''        return (lhs.size() >= rhs.size())
            && (std::equal( //
                rhs.cbegin(),
                rhs.cend(),
                lhs.cbegin(),''')],srcs=['packages/apib/src/MediaType.cc'],
 needs='a subtype or suffix that merely begins with "json"',breaks='application/json5 or application/x+json-seq is classified as JSON',
 demo='''#include <string>
#include <iostream>
#include <apib/syntax/MediaType.h>
int main(){ apib::syntax::media_type t; t.type="application"; t.subtype="vnd.x"; t.suffix="json-seq"; return apib::isJSON(t) ? 1 : 0; }
''')
SEEDS['c10-del-unquoted']=dict(property='C10',edits=[(D+'backend/MediaTypeS11n.cc','return is_tspecial(c) || std::isspace(c) || std::iscntrl(c);','return is_tspecial(c) || (c >= 0 && c <= 0x20);')],srcs=[D+'backend/MediaTypeS11n.cc'],
 needs='a parameter value holding the control character DEL (0x7F)',breaks='a value with a control character is written verbatim, unquoted',
 demo='''#include <string>
#include <iostream>
#include <sstream>
#include <apib/syntax/MediaType.h>
#include "backend/MediaTypeS11n.h"
int main(){ apib::syntax::media_type t; t.type="a"; t.subtype="b"; t.parameters.emplace_back("k","x\\x7Fy"); std::ostringstream o; using namespace apib::backend; o<<t; return o.str()=="a/b; k=\\"x\\x7Fy\\"" ? 0 : 1; }
''')
rf('c11-strncmp-prefix','C11',[(R+'Element.cc','return (0 > std::strcmp(first, second));','return (0 > std::strncmp(first, second, 7));')],
 'a name sharing the first seven characters with a seven letter base type ("booleans", "generics")','user type names that extend "boolean" or "generic" are reported as reserved',
 'int main(){ return isReserved(std::string("genericList")) || isReserved(std::string("booleanish")) ? 1 : 0; }')
rf('c13-nometaid-copies-meta','C13',[(R+'Element.h','if (flags & IElement::cMeta) {','if (flags & (IElement::cMeta | IElement::cNoMetaId)) {')],
 'clone with cNoMetaId but without cMeta','the meta is copied although it was not asked for',
 'int main(){ auto e=from_primitive(std::string("v")); e->meta().set("id",S("X")); e->meta().set("title",S("T")); auto c=e->clone(IElement::cValue|IElement::cNoMetaId); return c->meta().empty() ? 0 : 1; }')
rf('c13-unset-name','C13',[(R+'Element.h','''            if (flags & IElement::cElement)
                el->element(name_);''','''            if ((flags & IElement::cElement) && !(empty() && attributes_.empty() && meta_.empty()))
                el->element(name_);''')],
 'an otherwise empty element carrying just the name of a user type','cloning a bare reference to a named type loses the type name',
 'int main(){ auto e=make_empty<ObjectElement>(); e->element("Person"); return e->clone()->element()=="Person" ? 0 : 1; }')
rf('c14-member-key-attributes','C14',[(R+'dsd/Member.cc',': key_(other.key_ ? clone(*other.key_) : nullptr), value_(',': key_(other.key_ ? clone(*other.key_, IElement::cElement | IElement::cValue | IElement::cMeta) : nullptr), value_(')],
 'a member whose key carries attributes (a variable property name)','copying the member drops the attributes of its key',
 'int main(){ auto k=from_primitive(std::string("k")); k->attributes().set("variable",from_primitive(true)); dsd::Member m{P(std::move(k)),S("v")}; dsd::Member n(m); return n.key()->attributes().size()==1 ? 0 : 1; }')
rf('c14-option-skips-unset','C14',[(R+'dsd/Option.cc','''    std::transform(other.elements_.begin(),
        other.elements_.end(),
        std::back_inserter(elements_),
        [](const value_type& el) -> std::unique_ptr<IElement> {
            assert(el);
            return el->clone();
        });''','''    for (const auto& el : other.elements_) {
        assert(el);
        if (!el->empty())
            elements_.emplace_back(el->clone());
    }''')],
 'an option holding an element without value','copying the option drops such a child',
 'int main(){ dsd::Option o; o.push_back(S("a")); o.push_back(make_empty<StringElement>()); dsd::Option c(o); return c.size()==2 ? 0 : 1; }')
rf('c15-member-without-value','C15',[(R+'dsd/Member.cc','return eq(lhs.key(), rhs.key()) && eq(lhs.value(), rhs.value());','return eq(lhs.key(), rhs.key()) && (!lhs.value() || eq(lhs.value(), rhs.value()));')],
 'a left member that has no value, compared to one that has','members a (no value) and a: 1 compare equal, and only in one direction',
 'int main(){ dsd::Member a{std::string("k"),nullptr}; dsd::Member b{std::string("k"),S("v")}; return a==b ? 1 : 0; }')
rf('c15-info-keys','C15',[(R+'Utils.cc','return (l.first == r.first) && (*l.second == *r.second);','return (l.first.compare(0, r.first.size(), r.first) == 0) && (*l.second == *r.second);')],
 'attribute keys of which the left one extends the right one','elements whose attributes differ in a key compare equal when one key is a prefix of the other',
 'int main(){ InfoElements a,b; a.set("defaults",S("v")); b.set("default",S("v")); return a==b ? 1 : 0; }')
rf('c16-claim-order','C16',[(R+'InfoElements.cc','''        std::unique_ptr<IElement> result(it->second.release());
        elements.erase(it);
''','''        std::unique_ptr<IElement> result(it->second.release());
        if (it != elements.end() - 1)
            std::iter_swap(it, elements.end() - 1);
        elements.pop_back();
''')],
 'claiming an entry that has at least two entries behind it','the last entry takes the place of the claimed one: insertion order is lost',
 'int main(){ InfoElements a; a.set("a",S("1")); a.set("b",S("2")); a.set("c",S("3")); auto x=a.claim("a"); return a.begin()->first=="b" ? 0 : 1; }')
rf('c16-erase-one','C16',[(R+'InfoElements.cc','''        elements.erase(std::remove_if(elements.begin(),
                           elements.end(),
                           [&key](const InfoElements::value_type& keyValue) { return keyValue.first == key; }),
            elements.end());''','''        auto it = find(key);
        if (it != end())
            erase(it);''')],
 'a key present twice (appended by clone)','only the first of several entries of the key is erased',
 'int main(){ InfoElements a,b; a.set("k",S("1")); b.set("k",S("2")); a.clone(b); a.erase("k"); return a.find("k")==a.end() ? 0 : 1; }')
rf('c17-find-unset-key','C17',[(R+'dsd/Object.cc','return !key->empty() && (key->get().get() == name);','return key->get().get() == name;')],
 'a member with an unset text key and a look-up of the empty name','a member without a key is found under the name "" (and replaced by a member of that name)',
 'int main(){ dsd::Object o; o.push_back(make_element<MemberElement>(P(make_empty<StringElement>()),S("v"))); return o.find("")==o.end() ? 0 : 1; }')
rf('c17-add-after-erase','C17',[(R+'dsd/Object.cc','''    auto it = find(name);
    if (it != end())
        erase(it);
    return insert(end(), make_element<MemberElement>(name, std::move(value)));''','''    auto it = find(name);
    auto at = (it == end()) ? end() : erase(it);
    return insert(at, make_element<MemberElement>(name, std::move(value)));''')],
 'adding a member whose key is already present and not last','the new member is put in the place of the old one instead of at the end',
 'int main(){ dsd::Object o; o.addMember("a",S("1")); o.addMember("b",S("2")); o.addMember("a",S("3")); return GetKeyAsString(static_cast<MemberElement&>(**o.begin()))=="b" ? 0 : 1; }')
rf('c18-replaced-goes-last','C18',[(R+'dsd/Extend.cc','value.get().insert(value.get().erase(valueMatch), clone(*m));','value.get().erase(valueMatch);\n                        value.get().insert(value.get().end(), clone(*m));')],
 'a later object layer overriding a member that is not the last one','the overriding member is moved to the end instead of taking the place of the earlier one',
 '''int main(){ ObjectElement a; a.set(); a.get().addMember("x",S("1")); a.get().addMember("y",S("2")); ObjectElement b; b.set(); b.get().addMember("x",S("3"));
 ExtendElement e; e.set(); e.get().push_back(a.clone()); e.get().push_back(b.clone()); auto m=e.get().merge(); auto& o=TypeQueryVisitor::as<ObjectElement>(m.get())->get(); return GetKeyAsString(static_cast<MemberElement&>(**o.begin()))=="x" ? 0 : 1; }''')
rf('c18-namespace-leaks','C18',[(R+'dsd/Extend.cc','return (key == "id" || key == "prefix" || key == "namespace");','return (key == "id" || key == "prefix");')],
 'a later layer carrying the meta key "namespace"','the namespace of a later layer overrides the one of the merged element',
 '''int main(){ auto a=from_primitive(std::string("v")); auto b=from_primitive(std::string("w")); b->meta().set("namespace",S("n"));
 ExtendElement e; e.set(); e.get().push_back(std::move(a)); e.get().push_back(std::move(b)); auto m=e.get().merge(); return m->meta().empty() ? 0 : 1; }''')
rf('c18-ref-appended','C18',[(R+'dsd/Extend.cc','return mergeRef->get() == valueRef->get();','return mergeRef->get() == valueRef->get() && mergeRef->attributes() == valueRef->attributes();')],
 'two layers referring to the same symbol with different attributes','the reference of the later layer is appended instead of replacing the earlier one',
 '''int main(){ ObjectElement a; a.set(); auto r=make_element<RefElement>(std::string("T")); auto q=r->clone(); r->attributes().set("path",S("content")); a.get().push_back(std::move(r)); ObjectElement b; b.set(); b.get().push_back(std::move(q));
 ExtendElement e; e.set(); e.get().push_back(a.clone()); e.get().push_back(b.clone()); auto m=e.get().merge(); return TypeQueryVisitor::as<ObjectElement>(m.get())->get().size()==1 ? 0 : 1; }''')
rf('c19-reserved-not-base','C19',[(R+'Registry.cc','    if (isReserved(id)) {','    if (isReserved(id) && types_.count(id)) {')],
 'an element whose id is reserved but not one of the seven base types ("member", "ref", "select")','it is stored under a reserved name instead of being rejected',
 'int main(){ Registry r; auto e=make_empty<ObjectElement>(); e->meta().set("id",S("select")); try { r.add(std::move(e)); } catch(LogicError&){ return 0; } return 1; }')
rf('c19-keep-entry','C19',[(R+'Registry.cc','''    if (find(id)) {
        // there is already already element with given name
        return false;
    }

    types_[id] = std::move(element);
    return true;''','''    auto& slot = types_[id];
    const bool fresh = !slot;
    slot = std::move(element);
    return fresh;''')],
 'adding a second element under an id already taken','the earlier entry is overwritten although the call reports a refusal',
 'int main(){ Registry r; auto e=make_empty<ObjectElement>(); e->meta().set("id",S("A")); auto p=e.get(); r.add(std::move(e)); auto f=make_empty<StringElement>(); f->meta().set("id",S("A")); bool b=r.add(std::move(f)); return !b && TypeQueryVisitor::as<const ObjectElement>(r.find("A")) ? 0 : 1; }')
rf('c20-ancestor-unknown','C20',[(R+'Registry.cc','''            return parent;
        }
''','''            return next;
        }
''')],
 'a type whose parent name is not registered (or a cycle)','the walk returns nothing (or goes back into the cycle) instead of the last registered type',
 'int main(){ Registry r; auto e=make_empty<ObjectElement>(); e->element("Nowhere"); e->meta().set("id",S("A")); r.add(std::move(e)); return FindRootAncestor("A",r)==r.find("A") ? 0 : 1; }')
rf('c21-enumerations-after-value','C21',[(R+'IsExpandableVisitor.cc','''                    VisitBy(*e->get().value(), v);
                    if (v.get())
                        return true;
                }''','''                    VisitBy(*e->get().value(), v);
                    return v.get();
                }''')],
 'an enumeration that has a value and enumerations naming a user type','the enumerations of an enum with a value are not looked at',
 'int main(){ EnumElement e; e.set(dsd::Enum(S("v"))); auto n=make_empty<StringElement>(); n->element("Named"); e.attributes().set("enumerations",make_element<ArrayElement>(std::move(n))); IsExpandableVisitor v; v(e); return v.get() ? 0 : 1; }')
rf('c21-key-without-value','C21',[(R+'IsExpandableVisitor.cc','if (const IElement* key = content.key()) {','if (const IElement* key = content.value() ? content.key() : nullptr) {')],
 'a member without a value whose key names a user type','the key of a member without value is not looked at',
 'int main(){ auto k=from_primitive(std::string("k")); k->element("Key"); auto m=make_element<MemberElement>(P(std::move(k)),P()); IsExpandableVisitor v; v(*m); return v.get() ? 0 : 1; }')
rf('c23-nested-enum-stops','C23',[(R+'VisitorUtils.h','''                            auto ret = operator()(*val);
                            if (ret) {
                                return ret;
                            }''','''                            return operator()(*val);''')],
 'enumerations of which an enum without any value comes before an item with a value','the search stops at the nested enum and no value is found',
 'int main(){ EnumElement e; e.attributes().set("enumerations",make_element<ArrayElement>(P(make_empty<EnumElement>()),S("v"))); return GetValue<EnumElement>()(e) ? 0 : 1; }')
rf('c23-attribute-behind','C23',[(R+'VisitorUtils.h','''            if (!attr) {
                continue;
            }''','''            if (!attr) {
                break;
            }''')],
 'a type attribute list in which an entry that is no text precedes the wanted one','the attribute is not found',
 'int main(){ auto e=from_primitive(std::string("v")); e->attributes().set("typeAttributes",make_element<ArrayElement>(from_primitive(true),S("fixed"))); return HasTypeAttribute(*e,"fixed") ? 0 : 1; }')
rf('c25-front','C25',[(R+'InfoElementsUtils.h','arr->get().insert(arr->get().end(), make_element<Element<DSDType> >(std::move(value)));','arr->get().insert(arr->get().size() > 1 ? std::prev(arr->get().end()) : arr->get().end(), make_element<Element<DSDType> >(std::move(value)));')],
 'appending the third and later values','the value is added before the last one, not at the end',
 'int main(){ InfoElements ie; for (auto s : {"a","b","c"}) AppendInfoElement<ArrayElement>(ie,"k",dsd::String{s}); auto& a=TypeQueryVisitor::as<ArrayElement>(ie.begin()->second.get())->get(); return *a.begin()[2]==*S("c") ? 0 : 1; }')
SEEDS['c26-schemas-follow-bodies']=dict(property='C26',edits=[(D+'options.cc','return opts && opts->flags.test(drafter_parse_options::SKIP_GEN_BODY_SCHEMAS);','return opts && opts->flags.count() > drafter_parse_options::SKIP_GEN_BODIES && opts->flags.any();')],srcs=[D+'options.cc'],
 needs='exactly the flag for body schemas set, or two others',breaks='skipping of schemas is reported from the number of set flags',
 demo='''#include "options.h"
int main(){ drafter_parse_options o; o.flags.set(drafter_parse_options::SKIP_GEN_BODIES); o.flags.set(drafter_parse_options::NAME_REQUIRED); return drafter::is_skip_gen_body_schemas(&o) ? 1 : 0; }
''')
RX='packages/apib-parser/src/snowcrash/posix/RegexMatch.cc'; MN='packages/apib-parser/src/markdown-parser/MarkdownNode.cc'; CA='packages/drafter/src/refract/Cardinal.h'
SEEDS['c24-option-reported-as-select']=dict(property='C24',edits=[('packages/drafter/src/refract/TypeQueryVisitor.cc','    VISIT_IMPL(Option)\n','    void TypeQueryVisitor::operator()(const OptionElement& e)\n    {\n        typeInfo = e.empty() ? Select : Option;\n    }\n\n')],srcs=['@REFRACT'],
 needs='a one-of option without a value',breaks='an empty option is reported as a select, and cast to one',
 demo='''#include "refract/Element.h"
#include "refract/TypeQueryVisitor.h"
using namespace refract;
int main(){ OptionElement o; const IElement* e=&o; return TypeQueryVisitor::as<const OptionElement>(e)==&o && TypeQueryVisitor::as<const SelectElement>(e)==nullptr ? 0 : 1; }
''')
SEEDS['c27-assign-appends-map']=dict(property='C27',edits=[(MN,'    this->type = rhs.type;\n    this->text = rhs.text;\n    this->data = rhs.data;\n    this->sourceMap = rhs.sourceMap;\n    this->m_parent = rhs.m_parent;\n    this->m_children.swap(children);','    this->type = rhs.type;\n    this->text = rhs.text;\n    this->data = rhs.data;\n    this->sourceMap.append(rhs.sourceMap);\n    this->m_parent = rhs.m_parent;\n    this->m_children.swap(children);')],srcs=[MN],
 needs='assigning to a node which has a source map already',breaks='the old ranges stay in the source map of the assigned node',
 demo='''#include "MarkdownNode.h"
int main(){ mdp::MarkdownNode a,b; a.sourceMap.push_back(mdp::BytesRange(0,3)); b.sourceMap.push_back(mdp::BytesRange(9,2)); a=b; return a.sourceMap.size()==1 && a.sourceMap[0].location==9 ? 0 : 1; }
''')
SEEDS['c27-copy-orphans']=dict(property='C27',edits=[(MN,'    this->m_children.reset(::new MarkdownNodes(*rhs.m_children.get()));\n    this->m_parent = rhs.m_parent;\n','    this->m_children.reset(::new MarkdownNodes(*rhs.m_children.get()));\n    this->m_parent = rhs.children().empty() ? NULL : rhs.m_parent;\n')],srcs=[MN],
 needs='copying a leaf which has a parent',breaks='the copy of a leaf forgets its parent',
 demo='''#include "MarkdownNode.h"
int main(){ mdp::MarkdownNode p; mdp::MarkdownNode a(mdp::ParagraphMarkdownNodeType,&p,"x"); mdp::MarkdownNode b(a); return b.hasParent() && &b.parent()==&p ? 0 : 1; }
''')
SEEDS['c28-no-match-leak']=dict(property='C28',edits=[(RX,'    } else if (reti == REG_NOMATCH) {\n        ::regfree(&regex);\n        return false;','    } else if (reti == REG_NOMATCH) {\n        return false;')],
 needs='a valid expression which does not match',breaks='the compiled expression is never released',flags='-I"$R/packages/apib-parser/src/snowcrash/posix"',
 demo='''#include <regex.h>
static int live=0;
extern "C" { int vf_regcomp(regex_t* r,const char* e,int f); void vf_regfree(regex_t* r); }
int vf_regcomp(regex_t* r,const char* e,int f){ int x=::regcomp(r,e,f); if(!x) live++; return x; }
void vf_regfree(regex_t* r){ live--; ::regfree(r); }
#define regcomp vf_regcomp
#define regfree vf_regfree
#include "RegexMatch.cc"
int main(){ bool a=snowcrash::RegexMatch("abc","^b"); bool b=snowcrash::RegexMatch("abc","b"); return !a && b && live==0 ? 0 : 1; }
''')
SEEDS['c28-anchors-per-line']=dict(property='C28',edits=[(RX,'int reti = ::regcomp(&regex, expression.c_str(), REG_EXTENDED | REG_NOSUB);','int reti = ::regcomp(&regex, expression.c_str(), REG_EXTENDED | REG_NOSUB | REG_NEWLINE);')],srcs=[RX],
 needs='a target of several lines, and an anchored expression (or a dot)',breaks='^ and $ match at every line end, and the dot no longer matches a line feed',
 demo='''#include "RegexMatch.h"
int main(){ return !snowcrash::RegexMatch("x\\nabc\\ny","^abc$") && snowcrash::RegexMatch("a\\nb","a.b") ? 0 : 1; }
''')
IT='packages/drafter/src/refract/Iterate.h'
rf('c34-absent-child-stops','C34',[(IT,'                        if (!el) // decide whether this is an assert\n                            continue;','                        if (!el) // decide whether this is an assert\n                            break;')],'child traversal over a collection with an absent entry before present ones','the children behind an absent one are not visited',
'''#include "refract/Iterate.h"
#include "refract/FilterVisitor.h"
int main(){ ArrayElement a; a.set(dsd::Array{}); a.get().insert(a.get().end(),std::unique_ptr<IElement>(new StringElement)); a.get().insert(a.get().end(),std::unique_ptr<IElement>()); a.get().insert(a.get().end(),std::unique_ptr<IElement>(new NumberElement)); FilterVisitor f([](const IElement&){return true;}); Iterate<Children> it(f); it(a); return f.elements().size()==2 ? 0 : 1; }''')
rf('c34-value-first','C34',[(IT,'''                    if (auto key = e.key()) {
                        key->content(v);
                    }

                    if (auto value = e.value()) {
                        value->content(v);
                    }''','''                    auto value = e.value();

                    if (auto key = e.key()) {
                        if (value && value->empty())
                            value->content(v);
                        key->content(v);
                    }

                    if (value && !value->empty()) {
                        value->content(v);
                    }''')],'a member with a value that is not set','the unset value is visited before the key (or not at all without one)',
'''#include "refract/Iterate.h"
#include "refract/FilterVisitor.h"
int main(){ MemberElement m; m.set(dsd::Member(std::unique_ptr<IElement>(from_primitive("k")),std::unique_ptr<IElement>(new NumberElement))); FilterVisitor f([](const IElement&){return true;}); Iterate<Recursive> it(f); it(m); return f.elements().size()==3 && f.elements()[1]==m.get().key() && f.elements()[2]==m.get().value() ? 0 : 1; }''')

EX='#include "refract/ExpandVisitor.h"\n#include "SourceAnnotation.h"\n#include <unistd.h>\nstatic P obj(const char* name, const char* id=0){ auto o=make_empty<ObjectElement>(); o->set(); o->element(name); if(id) o->meta().set("id",P(from_primitive(std::string(id)))); return std::move(o); }\nstatic void mem(P& o,const char* k,P v){ static_cast<ObjectElement&>(*o).get().push_back(make_element<MemberElement>(P(from_primitive(std::string(k))),std::move(v))); }\nstatic P expand(Registry& r,IElement& e){ ExpandVisitor v(r); v(static_cast<const IElement&>(e)); return v.get(); }\nstatic std::vector<IElement*> kids(IElement* e){ std::vector<IElement*> v; for(auto& p: static_cast<ExtendElement*>(e)->get()) v.push_back(p.get()); return v; }\nstatic IElement* val(IElement* o,int i){ return static_cast<MemberElement*>((static_cast<ObjectElement*>(o)->get().begin()+i)->get())->get().value(); }\n'
rf('c22-cycle-through-first','C22',[(R+'ExpandVisitor.cc',"""[en](const inheritance_map::value_type& other) { return en == other.first; })) //""","""[en, &inheritance](const inheritance_map::value_type& other) { return en == inheritance.front().first; })) //""")],
 'a type whose ancestors form a cycle that does not pass through the type itself','expanding such a type never ends',
 EX+'int main(){ alarm(3); Registry r; r.add(obj("B","A")); r.add(obj("C","B")); r.add(obj("B","C")); P e=obj("A"); P x=expand(r,*e); return x && kids(x.get()).size()==1 ? 0 : 1; }')
rf('c22-mixin-pop','C22',[(R+'ExpandVisitor.cc',"""            if (auto referenced = registry.find(symbol)) {
                auto expanded = ExpandOrClone(std::move(referenced));
                MetaIdToRef(*expanded);
                ref->attributes().set("resolved", std::move(expanded));
            }

            members.pop_back();
""","""            if (auto referenced = registry.find(symbol)) {
                auto expanded = ExpandOrClone(std::move(referenced));
                MetaIdToRef(*expanded);
                ref->attributes().set("resolved", std::move(expanded));
                members.pop_back();
            }
""")],'two mixins of one unknown type in the same expansion','the second mixin of an unknown type is reported as a circular reference',
 EX+'static P ref(const char* s){ auto f=make_empty<RefElement>(); f->set(dsd::Ref(s)); return std::move(f); }\nint main(){ Registry r; auto a=make_element<ArrayElement>(); a->get().push_back(ref("X")); a->get().push_back(ref("X")); try { P x=expand(r,*a); return x ? 0 : 2; } catch(snowcrash::Error&) { return 1; } }')
rf('c22-circular-value','C22',[(R+'ExpandVisitor.cc','auto result = clone(*root, IElement::cMeta | IElement::cAttributes | IElement::cNoMetaId);','auto result = clone(*(registry.find(e.element())->empty() ? root : registry.find(e.element())), IElement::cMeta | IElement::cAttributes | IElement::cNoMetaId);')],
 'a recursive type with an ancestor of another kind','the recursive occurrence carries the attributes of the type instead of those of its root ancestor',
 EX+'int main(){ Registry r; P b=obj("object","B"); b->attributes().set("k",P(from_primitive(std::string("root")))); r.add(std::move(b)); P a=obj("B","A"); mem(a,"me",obj("A")); r.add(std::move(a)); P e=obj("A"); P x=expand(r,*e); auto l=kids(x.get()); if(l.size()!=3) return 1; IElement* v=val(l[1],0); return v && v->attributes().find("k")!=v->attributes().end() ? 0 : 1; }')
rf('c22-nested-id','C22',[(R+'ExpandVisitor.cc','            CopyMetaId(*extend, e);','            if (members.size() == 1)\n                CopyMetaId(*extend, e);')],
 'a named type nested in another named type, with an id of its own','the expansion of the inner type loses its id',
 EX+'int main(){ Registry r; P a=obj("object","A"); mem(a,"in",obj("B","keep")); r.add(std::move(a)); P b=obj("object","B"); r.add(std::move(b)); P e=obj("A"); P x=expand(r,*e); IElement* v=val(kids(x.get())[0],0); return v && v->element()=="extend" && v->meta().find("id")!=v->meta().end() ? 0 : 1; }')

ES=R+'ElementSize.cc'; EU=R+'ElementUtils.cc'
SZ='#include "refract/ElementUtils.h"\n#include "refract/ElementSize.h"\nstatic void ta(IElement& e,const char* n){ setTypeAttribute(e,n); }\nstatic P B(){ return make_empty<BooleanElement>(); }\nstatic P M(const char* k,P v){ return make_element<MemberElement>(P(from_primitive(std::string(k))),std::move(v)); }\nstatic P O(P a,P b=nullptr){ auto o=make_empty<ObjectElement>(); o->set(); o->get().push_back(std::move(a)); if(b) o->get().push_back(std::move(b)); return std::move(o); }\n'
def sz(i,edits,needs,breaks,main):
    rf(i,'C29',edits,needs,breaks,SZ+main,stubs=True)
    SEEDS[i]['srcs']=['@REFRACT',EU,ES]
sz('c29-option-inherit',[(ES,'return sizeOfMult(e.get().begin(), e.get().end(), inheritsFixed);','return sizeOfMult(e.get().begin(), e.get().end(), hasFixedTypeAttr(e));')],
 'a fixed object with a one-of whose option holds members with values','the options of a select no longer inherit fixed from the object around it: their values count as open',
 'int main(){ auto o=make_empty<OptionElement>(); o->set(); o->get().push_back(M("a",S("x"))); auto s=make_empty<SelectElement>(); s->set(); s->get().push_back(std::move(o)); P e=O(std::move(s)); ta(*e,"fixed"); return sizeOf(*e).data()==1 ? 0 : 1; }')
sz('c29-fixedtype-nested',[(ES,'baseSize = sizeOfMult(e.get().begin(), e.get().end(), isFixed);','baseSize = sizeOfMult(e.get().begin(), e.get().end(), true);')],
 'an object with fixed-type (not fixed) that has a member with a default or sample value','the members of a fixed-type object are taken as fixed, so open values count as one',
 'int main(){ P e=O(M("a",S("x"))); ta(*e,"fixedType"); P f=O(M("a",S("x"))); ta(*f,"fixed"); return sizeOf(*e)==cardinal::open() && sizeOf(*f).data()==1 ? 0 : 1; }')
sz('c29-nullable-inside',[(ES,'return wrapNullable(keySize * sizeOf(*e.get().value(), inheritsFixed), e);','return keySize * wrapNullable(sizeOf(*e.get().value(), inheritsFixed), e);')],
 'a nullable member with a variable key whose value has no values at all','null is multiplied by the open number of keys: the member counts as open instead of one',
 'int main(){ P m=M("a",make_empty<EnumElement>()); ta(*m,"nullable"); m->attributes().set("variable",P(from_primitive(true))); P n=M("a",B()); ta(*n,"nullable"); return sizeOf(*m).data()==1 && sizeOf(*n).data()==3 ? 0 : 1; }')
sz('c29-attr-prefix',[(EU,"            return e != std::find_if(b, e, [&name](const std::unique_ptr<IElement>& el) { //\n                const auto* entry = get<const StringElement>(el.get());\n                return entry && !entry->empty() && (entry->get().get() == name);","            return e != std::find_if(b, e, [&name](const std::unique_ptr<IElement>& el) { //\n                const auto* entry = get<const StringElement>(el.get());\n                return entry && !entry->empty() && (entry->get().get().find(name) == 0);")],
 'a type attribute that starts with the name of another one (fixedType, fixed)','fixedType is taken for fixed',
 'int main(){ P e=O(M("a",S("x"))); ta(*e,"fixedType"); return sizeOf(*e)==cardinal::open() ? 0 : 1; }')
sz('c29-sample-any',[(EU,"            if (!samples->empty() && !samples->get().empty())","            if (!samples->get().empty())"),(EU,"    if (const IElement* dfault = findDefault(element))\n        return dfault;\n    return nullptr;","    if (element.attributes().find(\"samples\") == element.attributes().end())\n        return findDefault(element);\n    return nullptr;")],
 'an unset primitive in a fixed object that has an empty list of samples and a default','the default is ignored when there is a samples attribute without samples: the value counts as open',
 'int main(){ P v=make_empty<StringElement>(); v->attributes().set("samples",P(make_empty<ArrayElement>())); v->attributes().set("default",S("d")); P e=O(M("a",std::move(v))); ta(*e,"fixed"); return sizeOf(*e).data()==1 ? 0 : 1; }')
SEEDS['c12-open-times-zero']=dict(property='C12',edits=[(CA,'return (lhs == cardinal::empty() || rhs == cardinal::empty()) ?','return (lhs == cardinal::empty() || (rhs == cardinal::empty() && finite(lhs))) ?')],
 needs='an open left operand and a zero right operand',breaks='open times zero is open, and the product is not commutative',
 demo='''#include "refract/Cardinal.h"
using namespace refract;
int main(){ return cardinal::open()*cardinal::empty()==cardinal::empty() && cardinal::empty()*cardinal::open()==cardinal::empty() && cardinal{3}*cardinal{4}==cardinal{12} ? 0 : 1; }
''')
SEEDS['c12-open-signed']=dict(property='C12',edits=[(CA,'return cardinal{ std::numeric_limits<value_type>::max() };','return cardinal{ static_cast<value_type>(std::numeric_limits<int>::max()) };')],
 needs='counts of 2^31 and above',breaks='sums and products from 2^31 on, although representable, turn into open, and finite() calls larger counts finite',
 demo='''#include "refract/Cardinal.h"
using namespace refract;
int main(){ cardinal a{2000000000u}; return (a+a).data()==4000000000u ? 0 : 1; }
''')

SO='packages/drafter/src/utils/so/'
SOH='#include <sstream>\n#include <string>\n#include "utils/so/JsonIo.h"\n#include "utils/so/YamlIo.h"\nusing namespace drafter::utils;\nstatic std::string J(const so::Value& v){ std::ostringstream o; so::serialize_json(o,v); return o.str(); }\nstatic std::string K(const so::Value& v){ std::ostringstream o; so::serialize_json(o,v,so::packed{}); return o.str(); }\nstatic std::string Y(const so::Value& v){ std::ostringstream o; so::serialize_yaml(o,v); return o.str(); }\n'
def soi(i,edits,needs,breaks,main):
    SEEDS[i]=dict(property='C30',edits=edits,needs=needs,breaks=breaks,demo=SOH+main,stubs=True,srcs=[SO+'JsonIo.cc',SO+'YamlIo.cc',SO+'Value.cc'])
JI=SO+'JsonIo.cc'; YI=SO+'YamlIo.cc'
soi('c30-json-us',[(JI,'if (c > 0x1f) { // non-control','if (c >= 0x1f) { // non-control')],'a string holding the byte 0x1f (unit separator)','the control byte 0x1f is written unescaped into JSON text, which no reader accepts',
 r'int main(){ return K(so::String{std::string("a\x1f" "b")})=="\"a\\u001fb\"" ? 0 : 1; }')
soi('c30-json-signed',[(JI,'std::uint8_t c = static_cast<std::uint8_t>(byte);','int c = byte;')],'a string with a byte of 0x80 or more','bytes outside ASCII are written as truncated \\uffff escapes',
 r'int main(){ return K(so::String{"\xc3\xa9"})=="\"\xc3\xa9\"" ? 0 : 1; }')
soi('c30-json-comma',[(JI,'            visit<Packed>(m, out, indent + 1);\n\n            if (commas > 0) {','            visit<Packed>(m, out, indent + 1);\n\n            if (commas > 0 && !mpark::holds_alternative<Null>(m)) {') ,],'an array with a null before another item','no comma follows a null item, so the JSON text is malformed',
 r'int main(){ so::Array a; a.data.emplace_back(so::Null{}); a.data.emplace_back(so::True{}); return K(std::move(a))=="[null,true]" ? 0 : 1; }')
soi('c30-json-indent',[(JI,'        if (!(Packed || value.data.empty()))\n            break_indent(out, indent);\n        out << \']\';','        if (!(Packed || value.data.size() < 2))\n            break_indent(out, indent);\n        out << \']\';')],'an array of exactly one item written unpacked','the closing bracket of a one-item array is not on its own line',
 r'int main(){ so::Array a; a.data.emplace_back(so::True{}); return J(std::move(a))=="[\n  true\n]" ? 0 : 1; }')
soi('c30-yaml-hex',[(YI,'if (c < 0x100) { // 8-bit','if (c <= 0x100) { // 8-bit'),(YI,'(0xA0 <= c && c <= 0xD7FF)                  //','(0xA0 <= c && c <= 0xD7FF && c != 0x100)    //')],'U+0100 in a string (two cooperating sites)','U+0100 is escaped with a two digit escape cut to \\x10, so it reads back as another character',
 r'int main(){ std::string t=Y(so::String{"\xc4\x80"}); return t=="\"\xc4\x80\"" || t=="\"\\u0100\"" ? 0 : 1; }')
soi('c30-yaml-nel',[(YI,"                case 0x0085: // utf next line\n                    out = escape_sequence('N', out);","                case 0x0085: // utf next line\n                    out = escape_sequence('n', out);")],'U+0085 (next line) in a string or key','next line reads back as a plain line feed',
 r'int main(){ return Y(so::String{"\xc2\x85"})=="\"\\N\"" ? 0 : 1; }')
soi('c30-yaml-astral',[(YI,'} else if (c < 0x10000) { // 16-bit','} else if (c < 0x20000) { // 16-bit'),(YI,'|| (0x10000 <= c && c <= 0x10FFFF);','|| (0x20000 <= c && c <= 0x10FFFF);')],'a character in U+10000..U+1FFFF, such as an emoji','emoji are escaped with a four digit escape that drops the last digit',
 r'int main(){ std::string t=Y(so::String{"\xf0\x9f\x98\x80"}); return t=="\"\xf0\x9f\x98\x80\"" || t=="\"\\U0001F600\"" ? 0 : 1; }')
soi('c30-yaml-keyrange',[(YI,"(c > 'Z' && c < 'a')","(c > '_' && c < 'a')")],'a key holding [ \\ ] ^ or _ (such as "[x]")','a key with brackets is written plain and read as a flow sequence',
 r'int main(){ so::Object o; o.data.emplace_back("[x]",so::Null{}); return Y(std::move(o))=="\"[x]\": null" ? 0 : 1; }')
soi('c30-yaml-emptyarr',[(YI,'            out << "[]";\n            return;','            if (indent > 0)\n                out << "[]";\n            return;')],'an empty array as the whole value','an empty array at top level is written as nothing, which reads as null',
 r'int main(){ return Y(so::Array{})=="[]" ? 0 : 1; }')

# ---- C33
RPC='packages/drafter/src/reporting.cc'
RPH='#include "refract/Element.h"\n#include "refract/InfoElements.h"\n#include "reporting.h"\n#include <iostream>\n#include <sstream>\n#include <memory>\n#include <string>\n#include <vector>\nusing namespace refract;\nconst int snowcrash::SourceAnnotation::OK = 0;\nusing P = std::unique_ptr<IElement>;\nstatic P num(const char* t) { auto e = make_empty<NumberElement>(); e->set(dsd::Number(std::string(t))); return std::move(e); }\nstatic P str(const char* t) { return from_primitive(std::string(t)); }\ntemplate <typename... X> static P arr(X&&... x) { auto e = make_empty<ArrayElement>(); e->set(); int z[] = { 0, (e->get().push_back(std::move(x)), 0)... }; (void)z; return std::move(e); }\nstatic P ann(const char* m, P classes, P code, P ranges) { P e = str(m); e->element("annotation"); if (classes) e->meta().set("classes", std::move(classes)); if (code) e->attributes().set("code", std::move(code)); if (ranges) e->attributes().set("sourceMap", arr(ranges)); return e; }\nstatic std::string got(const IElement* e, bool ln, int err, const std::string& src = "a\\nb\\n") { std::ostringstream o; auto b = std::cerr.rdbuf(o.rdbuf()); PrintReport(e, src, ln, err); std::cerr.rdbuf(b); return o.str(); }\nstatic std::string got(const snowcrash::Report& r, bool ln, const std::string& src = "a\\nb\\n") { std::ostringstream o; auto b = std::cerr.rdbuf(o.rdbuf()); PrintReport(r, src, ln); std::cerr.rdbuf(b); return o.str(); }\n'
def rep(i,edits,needs,breaks,main): SEEDS[i]=dict(property='C33',edits=edits,needs=needs,breaks=breaks,demo=RPH+main+'\n',srcs=['@REFRACT',RPC,'packages/drafter/src/SourceMapUtils.cc'])
rep('c33-range-of-three',[(RPC,'if (map && map->get().size() == 2) {','if (map && map->get().size() >= 2) {')],'a source map entry that holds more than location and length','a malformed range is printed as if it were a position',
 r'int main(){ P e=arr(ann("m",nullptr,nullptr,arr(arr(num("1"),num("2"),num("3"))))); return got(e.get(),false,1)=="\nm :\n" ? 0 : 1; }')
rep('c33-negative-code',[(RPC,'if (annotation.code != sc::SourceAnnotation::OK) {','if (annotation.code > sc::SourceAnnotation::OK) {')],'an annotation with a negative code','negative codes are missing from the report',
 r'int main(){ snowcrash::Report r; snowcrash::Warning w; w.code=-3; w.message="m"; r.warnings.push_back(w); return got(r,false)=="\nOK.\nwarning: (-3)  m\n" ? 0 : 1; }')
rep('c33-nested',[(RPC,'Iterate<Children> iterate(filter);','Iterate<Recursive> iterate(filter);')],'an annotation held by a child of the result (not by the result itself)','nested elements named annotation are reported too',
 r'int main(){ P e=arr(arr(ann("in",nullptr,nullptr,nullptr))); return got(e.get(),false,0)=="\nOK.\n" ? 0 : 1; }')
rep('c33-length-missing',[(RPC,'                if (loc && len) {','                if (loc) {')],'a range whose length is not a number','reporting an annotation with a malformed range crashes',
 r'int main(){ P e=arr(ann("m",nullptr,nullptr,arr(arr(num("1"),str("2"))))); return got(e.get(),false,1)=="\nm :\n" ? 0 : 1; }')
rep('c33-length-narrow',[(RPC,'mdp::Range pos(static_cast<std::int64_t>(loc->get()), static_cast<std::int64_t>(len->get()));','mdp::Range pos(static_cast<std::int64_t>(loc->get()), static_cast<std::uint8_t>(static_cast<std::int64_t>(len->get())));')],'a range of 256 or more characters reported by line','the end of long ranges is computed from a truncated length',
 r'int main(){ P e=arr(ann("m",nullptr,nullptr,arr(arr(num("0"),num("300"))))); return got(e.get(),true,1,std::string(299,120)+"\nb\n")=="\nm; line 1, column 1 - line 1, column 300\n" ? 0 : 1; }')
rep('c33-two-classes',[(RPC,'if (classes->get().size() == 1) {','if (!classes->get().empty()) {')],'an annotation with more than one class','one of several classes is reported as the severity',
 r'int main(){ P e=arr(ann("m",arr(str("error"),str("x")),nullptr,nullptr)); return got(e.get(),false,1)=="\nm\n" ? 0 : 1; }')
rep('c33-third-range',[(RPC,'(it == annotation.location.begin()) ? " :" : ";"','(it < annotation.location.end() - 1 || it == annotation.location.begin()) ? " :" : ";"')],'a parser annotation with three or more source ranges','inner ranges are introduced like the first one',
 r'int main(){ snowcrash::Report r; snowcrash::Warning w; w.code=3; w.message="m"; w.location.push_back(mdp::Range(1,2)); w.location.push_back(mdp::Range(3,4)); w.location.push_back(mdp::Range(5,6)); r.warnings.push_back(w); return got(r,false)=="\nOK.\nwarning: (3)  m :1:2;3:4;5:6\n" ? 0 : 1; }')
rep('c33-nul-source',[(RPC,'''AnnotationToString(const std::string& source, const bool useLineNumbers) : useLineNumbers(useLineNumbers)
        {
            if (useLineNumbers) {
                linesEndIndex = GetLinesEndIndex(source);''','''AnnotationToString(const std::string& source, const bool useLineNumbers) : useLineNumbers(useLineNumbers)
        {
            if (useLineNumbers) {
                linesEndIndex = GetLinesEndIndex(source.c_str());''')],'a source with a NUL byte, reported by line','lines after a NUL byte are unknown to the report',
 r'int main(){ P e=arr(ann("m",nullptr,nullptr,arr(arr(num("4"),num("1"))))); return got(e.get(),true,1,std::string("a\0b\nc\n",6))=="\nm; line 2, column 1 - line 2, column 1\n" ? 0 : 1; }')
