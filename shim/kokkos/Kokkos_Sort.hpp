#pragma once
#include "Kokkos_Core.hpp"
namespace Kokkos
{
template<typename V>
void sort(const V& v)
{
    using T = typename V::non_const_value_type;
    auto x = kk::peek<T>(v.data(), v.size());
    std::sort(x.begin(), x.end());
    if (!x.empty()) kk::pokeRaw(v.data(), x.data(), x.size() * sizeof(T));
}
}
