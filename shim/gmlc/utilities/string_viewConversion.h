#pragma once
#include "string_viewOps.h"
#include <cstdlib>
#include <regex>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
namespace gmlc::utilities {
constexpr char numCheck[] = "0123456789+-. \t\n.eE";
inline bool nonNumericFirstCharacter(std::string_view V) { if (V.empty()) return true; const char c = V[0]; return !((c >= '0' && c <= '9') || c == '+' || c == '-' || c == '.' || c == ' ' || c == '\t' || c == '\n'); }
inline bool nonNumericFirstOrLastCharacter(std::string_view V) { if (nonNumericFirstCharacter(V)) return true; const char c = V.back(); return !((c >= '0' && c <= '9') || c == '.' || c == ' ' || c == '\t' || c == '\n' || c == '\0'); }
template<typename X>
X strViewToNumber(std::string_view input, size_t* rem)
{
    const std::string s(input);
    if constexpr (std::is_floating_point<X>::value) return static_cast<X>(std::stod(s, rem));
    else if constexpr (std::is_unsigned<X>::value) return static_cast<X>(std::stoull(s, rem));
    else return static_cast<X>(std::stoll(s, rem));
}
template<typename X>
X numConv(std::string_view V) { return strViewToNumber<X>(V, nullptr); }
template<typename X, typename IT>
X numConv(const std::sub_match<IT>& V) { return strViewToNumber<X>(V.str(), nullptr); }
/** convert a full or partial number, default value when not a number */
template<typename X>
X numeric_conversion(std::string_view V, const X defValue)
{
    if (nonNumericFirstCharacter(V)) return defValue;
    try { return strViewToNumber<X>(V, nullptr); } catch (const std::invalid_argument&) { return defValue; } catch (const std::out_of_range&) { return defValue; }
}
/** convert only if the complete string is numeric */
template<typename X>
X numeric_conversionComplete(std::string_view V, const X defValue)
{
    if (nonNumericFirstOrLastCharacter(V)) return defValue;
    try {
        size_t rem = 0;
        X res = strViewToNumber<X>(V, &rem);
        while (rem < V.size()) { if (std::isspace(static_cast<unsigned char>(V[rem])) == 0) return defValue; ++rem; }
        return res;
    } catch (const std::invalid_argument&) { return defValue; } catch (const std::out_of_range&) { return defValue; }
}
template<typename X>
std::vector<X> str2vector(std::string_view line, const X defValue, std::string_view delims = ",;")
{
    std::vector<X> out;
    for (auto s : string_viewOps::splitline(line, delims)) out.push_back(numeric_conversion<X>(string_viewOps::trim(s), defValue));
    return out;
}
}  // namespace gmlc::utilities
