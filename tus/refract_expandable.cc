// the refract library with the expandability check
#include "refract.cc"
#include "refract/IsExpandableVisitor.cc"
