// the refract library with the lookup helpers instantiated for every element kind
#include "refract.cc"
#include "refract/VisitorUtils.h"
#include "refract/VisitorUtils.cc"
#define L(E) \
    template bool refract::HasTypeAttribute<refract::E>(const refract::E&, std::string); \
    template bool refract::IsVariableProperty<refract::E>(const refract::E&); \
    template const refract::E* refract::GetDefault<refract::E>(const refract::E&); \
    template const refract::E* refract::GetSample<refract::E>(const refract::E&); \
    template const refract::E* refract::FindCollectionMemberValue<const refract::E>(const InfoElements&, const std::string&);\
    template struct refract::GetValue<refract::E>;
L(NullElement) L(HolderElement) L(StringElement) L(NumberElement) L(BooleanElement) L(ArrayElement) L(MemberElement) L(ObjectElement) L(EnumElement) L(RefElement) L(ExtendElement) L(OptionElement) L(SelectElement)
template bool refract::HasTypeAttribute<refract::IElement>(const refract::IElement&, std::string);
template bool refract::IsVariableProperty<refract::IElement>(const refract::IElement&);
