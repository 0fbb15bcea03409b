// the refract library with the element template instantiated for every kind
#include "refract.cc"
#define I(X) template class refract::Element<refract::dsd::X>;
I(Null) I(Holder) I(String) I(Number) I(Boolean) I(Array) I(Member) I(Object) I(Enum) I(Ref) I(Extend) I(Option) I(Select)
// forces the compiler-generated copy and move members into existence (never verified itself)
template <typename T> void force_(const T& x) { T a(x); T b(std::move(a)); a = x; b = std::move(a); }
#define F(X) template void force_<refract::Element<refract::dsd::X> >(const refract::Element<refract::dsd::X>&);
F(Null) F(Holder) F(String) F(Number) F(Boolean) F(Array) F(Member) F(Object) F(Enum) F(Ref) F(Extend) F(Option) F(Select)
#define G(X) template void force_<refract::dsd::X>(const refract::dsd::X&);
G(Null) G(String) G(Number) G(Boolean) G(Ref)
