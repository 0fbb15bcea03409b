// stand-in for the absent submodule mpark/variant: same interface, provided by std::variant (C++17)
#ifndef VX_MPARK_VARIANT
#define VX_MPARK_VARIANT
#include <variant>
namespace mpark
{
    using std::variant; using std::get; using std::get_if; using std::visit; using std::monostate; using std::holds_alternative;
    using std::bad_variant_access; using std::in_place_type_t; using std::in_place_index_t; using std::variant_alternative; using std::variant_size; using std::variant_npos;
    template <typename T> constexpr std::in_place_type_t<T> in_place_type{};
    template <std::size_t I> constexpr std::in_place_index_t<I> in_place_index{};
}
#endif
