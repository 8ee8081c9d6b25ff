#pragma once
#include <string>
#include <typeinfo>
namespace gmlc {
inline std::string demangle(const std::string& s) { return s; }
template<class X> std::string demangle(const X& x) { return typeid(x).name(); }
}  // namespace gmlc
