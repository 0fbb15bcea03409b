// the refract library with the type registry
#include "refract.cc"
#include "refract/Registry.cc"
