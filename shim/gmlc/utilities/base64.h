#pragma once
#include <cstddef>
#include <string>
#include <string_view>
#include <vector>
namespace gmlc::utilities {
inline std::string base64_encode(void const* bytes, size_t len)
{
    static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    const auto* p = static_cast<const unsigned char*>(bytes);
    std::string o;
    for (size_t i = 0; i < len; i += 3) {
        unsigned v = p[i] << 16U;
        if (i + 1 < len) v |= p[i + 1] << 8U;
        if (i + 2 < len) v |= p[i + 2];
        o += t[(v >> 18U) & 63U]; o += t[(v >> 12U) & 63U];
        o += (i + 1 < len) ? t[(v >> 6U) & 63U] : '=';
        o += (i + 2 < len) ? t[v & 63U] : '=';
    }
    return o;
}
inline std::string base64_encode(std::string_view s) { return base64_encode(s.data(), s.size()); }
inline std::string base64_decode_to_string(std::string_view in, size_t offset = 0)
{
    std::string o; unsigned v = 0; int bits = 0;
    for (size_t i = offset; i < in.size(); ++i) {
        const char c = in[i]; int d;
        if (c >= 'A' && c <= 'Z') d = c - 'A'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 26; else if (c >= '0' && c <= '9') d = c - '0' + 52; else if (c == '+') d = 62; else if (c == '/') d = 63; else break;
        v = (v << 6U) | static_cast<unsigned>(d); bits += 6;
        if (bits >= 8) { bits -= 8; o.push_back(static_cast<char>((v >> bits) & 0xFFU)); }
    }
    return o;
}
inline std::vector<unsigned char> base64_decode(std::string_view in, size_t offset = 0) { auto s = base64_decode_to_string(in, offset); return {s.begin(), s.end()}; }
inline size_t base64_decode(std::string_view in, void* data, size_t max_size) { auto s = base64_decode_to_string(in); size_t n = s.size() < max_size ? s.size() : max_size; for (size_t i = 0; i < n; ++i) static_cast<char*>(data)[i] = s[i]; return n; }
}  // namespace gmlc::utilities
