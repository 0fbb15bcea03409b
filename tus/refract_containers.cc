// the refract library with the container interface instantiated for every container kind
#include "refract.cc"
#define C(X) template class refract::dsd::container_traits<refract::dsd::X, std::vector<std::unique_ptr<refract::IElement> > >;
C(Array) C(Object) C(Extend) C(Option)
template class refract::dsd::container_traits<refract::dsd::Select, std::vector<std::unique_ptr<refract::OptionElement> > >;
