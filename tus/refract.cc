// unity unit of the refract library: the sources themselves, no code of its own (explicit instantiations only)
#include "refract/Element.h"
#include "refract/Element.cc"
#include "refract/InfoElements.cc"
#include "refract/Utils.cc"
#include "refract/TypeQueryVisitor.cc"
#include "refract/ComparableVisitor.cc"
#include "refract/dsd/Array.cc"
#include "refract/dsd/Bool.cc"
#include "refract/dsd/Enum.cc"
#include "refract/dsd/Extend.cc"
#include "refract/dsd/Holder.cc"
#include "refract/dsd/Member.cc"
#include "refract/dsd/Null.cc"
#include "refract/dsd/Number.cc"
#include "refract/dsd/Object.cc"
#include "refract/dsd/Option.cc"
#include "refract/dsd/Ref.cc"
#include "refract/dsd/Select.cc"
#include "refract/dsd/String.cc"
