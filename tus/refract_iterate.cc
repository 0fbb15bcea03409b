// the refract library with traversal and filtering as the library uses them (drafter.cc, reporting.cc)
#include "refract.cc"
#include "refract/Query.cc"
#include "refract/Iterate.h"
#include "refract/FilterVisitor.h"
void vf_all(refract::FilterVisitor& f, const refract::IElement& e)
{
    refract::Iterate<refract::Recursive> i(f);
    i(e);
}
void vf_children(refract::FilterVisitor& f, const refract::IElement& e)
{
    refract::Iterate<refract::Children> i(f);
    i(e);
}
