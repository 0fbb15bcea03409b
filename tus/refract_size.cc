// the refract library with attribute queries and type sizes
#include "refract.cc"
#include "refract/ElementUtils.cc"
#include "refract/ElementSize.cc"
