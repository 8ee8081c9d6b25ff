#pragma once
#include "string_viewOps.h"
#include <random>
#include <string>
#include <vector>
namespace gmlc::utilities {
using stringVector = std::vector<std::string>;
inline std::string convertToLowerCase(std::string_view in) { std::string s(in); for (auto& c : s) c = static_cast<char>(std::tolower(static_cast<unsigned char>(c))); return s; }
inline std::string convertToUpperCase(std::string_view in) { std::string s(in); for (auto& c : s) c = static_cast<char>(std::toupper(static_cast<unsigned char>(c))); return s; }
inline void makeLowerCase(std::string& s) { s = convertToLowerCase(s); }
inline void makeUpperCase(std::string& s) { s = convertToUpperCase(s); }
inline std::string randomString(std::string::size_type length)
{
    static const char chars[] = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
    thread_local std::mt19937 rg{std::random_device{}()};
    std::uniform_int_distribution<size_t> pick(0, sizeof(chars) - 2);
    std::string s; s.reserve(length);
    while (s.size() < length) s.push_back(chars[pick(rg)]);
    return s;
}
namespace stringOps {
using string_viewOps::default_delim_chars;
using string_viewOps::default_bracket_chars;
using string_viewOps::default_quote_chars;
using string_viewOps::whiteSpaceCharacters;
enum class delimiter_compression { on, off };
namespace detail {
inline stringVector conv(const string_viewOps::string_viewVector& v) { stringVector o; for (auto s : v) o.emplace_back(s); return o; }
inline string_viewOps::delimiter_compression dc(delimiter_compression c) { return c == delimiter_compression::on ? string_viewOps::delimiter_compression::on : string_viewOps::delimiter_compression::off; }
}  // namespace detail
inline stringVector splitline(std::string_view line, std::string_view delims = default_delim_chars, delimiter_compression c = delimiter_compression::off) { return detail::conv(string_viewOps::splitline(line, delims, detail::dc(c))); }
inline stringVector splitline(std::string_view line, char del) { return detail::conv(string_viewOps::splitline(line, std::string_view(&del, 1))); }
inline void splitline(std::string_view line, stringVector& out, std::string_view delims = default_delim_chars, delimiter_compression c = delimiter_compression::off) { out = splitline(line, delims, c); }
inline stringVector splitlineQuotes(std::string_view line, std::string_view delims = default_delim_chars, std::string_view quotes = default_quote_chars, delimiter_compression c = delimiter_compression::off) { return detail::conv(string_viewOps::splitlineQuotes(line, delims, quotes, detail::dc(c))); }
inline stringVector splitlineBracket(std::string_view line, std::string_view delims = default_delim_chars, std::string_view brackets = default_bracket_chars, delimiter_compression c = delimiter_compression::off) { return detail::conv(string_viewOps::splitlineBracket(line, delims, brackets, detail::dc(c))); }
inline void trimString(std::string& s, std::string_view ws = whiteSpaceCharacters) { s = std::string(string_viewOps::trim(s, ws)); }
inline std::string trim(std::string_view s, std::string_view ws = whiteSpaceCharacters) { return std::string(string_viewOps::trim(s, ws)); }
inline void trim(stringVector& v, std::string_view ws = whiteSpaceCharacters) { for (auto& s : v) trimString(s, ws); }
inline std::string removeQuotes(std::string_view s) { return std::string(string_viewOps::removeQuotes(s)); }
inline std::string removeBrackets(std::string_view s) { return std::string(string_viewOps::removeBrackets(s)); }
inline std::string getTailString(std::string_view s, char sep) { return std::string(string_viewOps::getTailString(s, sep)); }
inline std::string getTailString(std::string_view s, std::string_view sep) { return std::string(string_viewOps::getTailString(s, sep)); }
inline int trailingStringInt(std::string_view in, std::string& out, int def = -1)
{
    size_t e = in.size();
    while (e > 0 && std::isdigit(static_cast<unsigned char>(in[e - 1]))) --e;
    if (e == in.size()) { out = std::string(in); return def; }
    out = std::string(in.substr(0, e));
    return std::stoi(std::string(in.substr(e)));
}
inline int trailingStringInt(std::string_view in, int def = -1) { std::string o; return trailingStringInt(in, o, def); }
}  // namespace stringOps
}  // namespace gmlc::utilities
