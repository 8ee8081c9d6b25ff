#pragma once
#include <algorithm>
#include <cctype>
#include <string>
#include <string_view>
#include <vector>
namespace gmlc::utilities::string_viewOps {
using string_viewVector = std::vector<std::string_view>;
constexpr std::string_view whiteSpaceCharacters(" \t\n\r\a\v\f");
constexpr std::string_view default_delim_chars(",;");
constexpr std::string_view default_quote_chars(R"raw('"`)raw");
constexpr std::string_view default_bracket_chars(R"raw([{(<'"`)raw");
enum class delimiter_compression { on, off };
inline std::string_view trim(std::string_view s, std::string_view ws = whiteSpaceCharacters)
{
    auto st = s.find_first_not_of(ws);
    if (st == std::string_view::npos) return {};
    auto e = s.find_last_not_of(ws);
    return s.substr(st, e - st + 1);
}
inline void trimString(std::string_view& s, std::string_view ws = whiteSpaceCharacters) { s = trim(s, ws); }
inline void trim(string_viewVector& v) { for (auto& s : v) trimString(s); }
inline std::string_view merge(std::string_view a, std::string_view b)
{
    const auto diff = b.data() - a.data();
    if (diff >= 0 && diff < 25 + static_cast<std::ptrdiff_t>(a.size())) return {a.data(), static_cast<size_t>(diff) + b.size()};
    return a;
}
inline std::string_view getTailString(std::string_view s, char sep) { auto p = s.find_last_of(sep); return p == std::string_view::npos ? s : s.substr(p + 1); }
inline std::string_view getTailString(std::string_view s, std::string_view sep) { auto p = s.rfind(sep); return p == std::string_view::npos ? s : s.substr(p + sep.size()); }
inline std::string_view removeQuotes(std::string_view s)
{
    auto r = trim(s);
    if (r.size() >= 2 && r.front() == r.back() && (r.front() == '"' || r.front() == '\'' || r.front() == '`')) return r.substr(1, r.size() - 2);
    return r;
}
inline std::string_view removeBrackets(std::string_view s)
{
    auto r = trim(s);
    if (r.size() >= 2 && ((r.front() == '[' && r.back() == ']') || (r.front() == '(' && r.back() == ')') || (r.front() == '{' && r.back() == '}') || (r.front() == '<' && r.back() == '>'))) return r.substr(1, r.size() - 2);
    return r;
}
inline string_viewVector splitline(std::string_view line, std::string_view delims = default_delim_chars, delimiter_compression c = delimiter_compression::off)
{
    string_viewVector out;
    size_t pos = 0;
    while (true) {
        auto n = line.find_first_of(delims, pos);
        auto piece = line.substr(pos, n == std::string_view::npos ? std::string_view::npos : n - pos);
        if (!(c == delimiter_compression::on && piece.empty())) out.push_back(piece);
        if (n == std::string_view::npos) break;
        pos = n + 1;
    }
    return out;
}
inline string_viewVector splitline(std::string_view line, char del) { return splitline(line, std::string_view(&del, 1)); }
inline string_viewVector splitlineQuotes(std::string_view line, std::string_view delims = default_delim_chars, std::string_view quotes = default_quote_chars, delimiter_compression c = delimiter_compression::off)
{
    string_viewVector out;
    size_t start = 0;
    char q = 0;
    for (size_t i = 0; i <= line.size(); ++i) {
        if (i < line.size()) {
            if (q != 0) { if (line[i] == q) q = 0; continue; }
            if (quotes.find(line[i]) != std::string_view::npos) { q = line[i]; continue; }
        }
        if (i == line.size() || delims.find(line[i]) != std::string_view::npos) {
            auto piece = line.substr(start, i - start);
            if (!(c == delimiter_compression::on && piece.empty())) out.push_back(piece);
            start = i + 1;
        }
    }
    return out;
}
inline string_viewVector splitlineBracket(std::string_view line, std::string_view delims = default_delim_chars, std::string_view brackets = "[{(<'\"`", delimiter_compression c = delimiter_compression::off)
{
    (void)brackets;
    return splitlineQuotes(line, delims, default_quote_chars, c);
}
inline int toIntSimple(std::string_view s) { int r = 0; for (char c : s) if (c >= '0' && c <= '9') r = r * 10 + (c - '0'); return r; }
}  // namespace gmlc::utilities::string_viewOps
