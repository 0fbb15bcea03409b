// the refract library with the type query templates instantiated for every element kind
#include "refract.cc"
#include "refract/ElementUtils.h"
#define Q(E) \
    template refract::E* refract::TypeQueryVisitor::as<refract::E>(refract::IElement*); \
    template const refract::E* refract::TypeQueryVisitor::as<refract::E>(const refract::IElement*); \
    template const refract::E* refract::TypeQueryVisitor::as<const refract::E>(const refract::IElement*); \
    template refract::E* refract::get<refract::E>(refract::IElement*); \
    template const refract::E* refract::get<const refract::E>(const refract::IElement*);
Q(NullElement) Q(HolderElement) Q(StringElement) Q(NumberElement) Q(BooleanElement) Q(ArrayElement) Q(MemberElement) Q(ObjectElement) Q(EnumElement) Q(RefElement) Q(ExtendElement) Q(OptionElement) Q(SelectElement)
#define QC(E) template std::unique_ptr<refract::E> refract::clone<refract::E>(const refract::E&, int);
QC(IElement) QC(NullElement) QC(HolderElement) QC(StringElement) QC(NumberElement) QC(BooleanElement) QC(ArrayElement) QC(MemberElement) QC(ObjectElement) QC(EnumElement) QC(RefElement) QC(ExtendElement) QC(OptionElement) QC(SelectElement)
