/* small stand-in for toml11 4.x: enough to parse; toml::parse always fails (links, but reads no TOML) */
#pragma once
#include <chrono>
#include <cstdint>
#include <istream>
#include <map>
#include <new>
#include <ostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
namespace toml {
enum class value_t { empty, boolean, integer, floating, string, offset_datetime, local_datetime, local_date, local_time, array, table };
class exception: public std::exception { public: const char* what() const noexcept override { return "toml unavailable"; } };
class syntax_error: public exception {};
class type_error: public exception {};
class value {
  public:
    using array_type = std::vector<value>;
    using table_type = std::map<std::string, value>;
    value() = default;
    bool is_empty() const { return t == value_t::empty; }
    bool is_uninitialized() const { return is_empty(); }
    bool is_boolean() const { return t == value_t::boolean; }
    bool is_integer() const { return t == value_t::integer; }
    bool is_floating() const { return t == value_t::floating; }
    bool is_string() const { return t == value_t::string; }
    bool is_array() const { return t == value_t::array; }
    bool is_table() const { return t == value_t::table; }
    bool is_local_time() const { return t == value_t::local_time; }
    bool is_array_of_tables() const { return false; }
    value_t type() const { return t; }
    bool contains(const std::string& k) const { return tab.count(k) > 0; }
    std::size_t count(const std::string& k) const { return tab.count(k); }
    const value& at(const std::string& k) const { return tab.at(k); }
    value& at(const std::string& k) { return tab.at(k); }
    const value& at(std::size_t i) const { return arr.at(i); }
    const value& operator[](const std::string& k) const { return tab.at(k); }
    const value& operator[](std::size_t i) const { return arr.at(i); }
    std::size_t size() const { return arr.size() + tab.size(); }
    template<class... A> const std::string& as_string(A&&...) const { return s; }
    template<class... A> double as_floating(A&&...) const { return f; }
    template<class... A> std::int64_t as_integer(A&&...) const { return i; }
    template<class... A> bool as_boolean(A&&...) const { return b; }
    template<class... A> const array_type& as_array(A&&...) const { return arr; }
    template<class... A> array_type& as_array(A&&...) { return arr; }
    template<class... A> const table_type& as_table(A&&...) const { return tab; }
    template<class... A> table_type& as_table(A&&...) { return tab; }

  private:
    value_t t{value_t::empty};
    std::string s; double f{0}; std::int64_t i{0}; bool b{false}; array_type arr; table_type tab;
};
using array = value::array_type;
using table = value::table_type;
inline std::ostream& operator<<(std::ostream& o, const value&) { return o; }
inline value parse(std::istream&, const std::string& = std::string()) { throw exception(); }
inline value parse(const std::string&) { throw exception(); }
inline value parse_str(const std::string&) { throw exception(); }
template<class T> T get(const value& v)
{
    if constexpr (std::is_same_v<T, std::string>) return v.as_string();
    else if constexpr (std::is_same_v<T, bool>) return v.as_boolean();
    else if constexpr (std::is_integral_v<T>) return static_cast<T>(v.as_integer());
    else if constexpr (std::is_floating_point_v<T>) return static_cast<T>(v.as_floating());
    else throw type_error();
}
template<class K> const value& find(const value& v, const K& k) { return v.at(std::string(k)); }
template<class T, class K> T find(const value& v, const K& k) { return get<T>(v.at(std::string(k))); }
template<class T> std::enable_if_t<!std::is_same_v<T, std::string>, T> find_or(const value& v, const std::string& k, const T& d) { if constexpr (std::is_same_v<T, value>) return v.contains(k) ? v.at(k) : d; else return v.contains(k) ? get<T>(v.at(k)) : d; }
template<class T> std::enable_if_t<std::is_same_v<T, std::string>, const std::string&> find_or(const value& v, const std::string& k, const std::string& d) { return v.contains(k) ? v.at(k).as_string() : d; }
inline const std::string& find_or(const value& v, const std::string& k, const std::string& d) { return v.contains(k) ? v.at(k).as_string() : d; }
}  // namespace toml
