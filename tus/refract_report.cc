// the refract library with traversal, filtering and the annotation report
#include "refract.cc"
#include "refract/Query.cc"
#include "reporting.cc"
