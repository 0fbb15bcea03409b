// the refract library with the info element helper instantiated the way the library uses it
#include "refract.cc"
#include "refract/InfoElementsUtils.h"
template void refract::AppendInfoElement<refract::ArrayElement, refract::dsd::String>(refract::InfoElements&, const std::string&, refract::dsd::String&&);
