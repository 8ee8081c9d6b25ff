#pragma once
#include <map>
#include <string>
#include <type_traits>
#include <unordered_map>
enum class reference_stability : std::size_t { unstable = 4, stable = 5 };
constexpr std::nullptr_t no_search = nullptr;
using no_search_type = std::nullptr_t;
template<class T>
struct is_easily_hashable {
    static constexpr bool value = std::is_arithmetic<T>::value || std::is_same<T, std::string>::value;
};
