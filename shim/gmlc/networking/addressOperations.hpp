#pragma once
#include <cstdint>
#include <optional>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
namespace gmlc::networking {
enum class InterfaceTypes : char { TCP = 0, UDP = 1, IP = 2, IPC = 3, INPROC = 4 };
enum class InterfaceNetworks : char { LOCAL = 0, IPV4 = 4, IPV6 = 6, ALL = 10 };
inline std::string makePortAddress(std::string_view networkInterface, int portNumber)
{
    std::string r{networkInterface};
    if (!networkInterface.empty()) r.push_back(':');
    r.append(std::to_string(portNumber));
    return r;
}
inline std::pair<std::string, std::optional<std::string>> extractInterfaceAndPortString(std::string_view address)
{
    auto lastColon = address.find_last_of(':');
    if (lastColon == std::string_view::npos) return {std::string(address), std::nullopt};
    if (address.size() > lastColon + 1 && address[lastColon + 1] == '/') return {std::string(address), std::nullopt};
    return {std::string(address.substr(0, lastColon)), std::string(address.substr(lastColon + 1))};
}
inline std::pair<std::string, std::optional<int>> extractInterfaceAndPort(std::string_view address)
{
    auto r = extractInterfaceAndPortString(address);
    if (!r.second || r.second->empty() || (*r.second)[0] == '*') return {r.first, std::nullopt};
    try { return {r.first, std::stoi(*r.second)}; } catch (...) { return {std::string(address), std::nullopt}; }
}
inline std::string_view stripProtocol(std::string_view a) { auto p = a.find("://"); return p == std::string_view::npos ? a : a.substr(p + 3); }
inline void removeProtocol(std::string& a) { auto p = a.find("://"); if (p != std::string::npos) a.erase(0, p + 3); }
inline std::string addProtocol(const std::string& a, InterfaceTypes t)
{
    if (a.find("://") != std::string::npos) return a;
    switch (t) {
        case InterfaceTypes::IPC: return "ipc://" + a;
        case InterfaceTypes::INPROC: return "inproc://" + a;
        case InterfaceTypes::UDP: return "udp://" + a;
        default: return "tcp://" + a;
    }
}
inline void insertProtocol(std::string& a, InterfaceTypes t) { a = addProtocol(a, t); }
inline bool isIpv6(const std::string& a) { size_t n = 0; for (char c : a) if (c == ':') ++n; return n > 1; }
inline bool isIpv6(std::string_view a) { return isIpv6(std::string(a)); }
}  // namespace gmlc::networking
