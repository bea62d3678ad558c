// Stand-in for the (absent) cppitertools submodule: iter::enumerate only, which is all the repository uses.
#ifndef VERIF_SHIM_CPPITERTOOLS_HPP
#define VERIF_SHIM_CPPITERTOOLS_HPP
#include <cstddef>
#include <iterator>
#include <utility>
#include <type_traits>
namespace iter {
template<class It> struct EnumIt {
    std::size_t index; It it;
    using ref = decltype(*std::declval<It&>());
    struct value { std::size_t index; ref element; };
    value operator*() const { return value{index, *it}; }
    EnumIt& operator++() { ++index; ++it; return *this; }
    bool operator!=(const EnumIt& o) const { return it != o.it; }
    bool operator==(const EnumIt& o) const { return it == o.it; }
};
template<class C> struct Enumerated {
    C c; std::size_t start;
    auto begin() { return EnumIt<decltype(std::begin(c))>{start, std::begin(c)}; }
    auto end() { return EnumIt<decltype(std::begin(c))>{start, std::end(c)}; }
};
// An lvalue is held by reference, an rvalue by value, as cppitertools does.
template<class C> Enumerated<C> enumerate(C&& c, std::size_t start = 0) { return Enumerated<C>{std::forward<C>(c), start}; }
}
#endif
