// the refract library with type expansion
#include "refract.cc"
#include "refract/Registry.cc"
#include "refract/IsExpandableVisitor.cc"
#include "refract/ExpandVisitor.cc"
