#pragma once
#include <map>
#include <string>
namespace units {
class precise_unit {
  public:
    constexpr precise_unit() = default;
    constexpr precise_unit(double m, int d): mult(m), dim(d) {}
    constexpr double multiplier() const { return mult; }
    constexpr int base() const { return dim; }
    constexpr bool operator==(const precise_unit& o) const { return mult == o.mult && dim == o.dim; }
    constexpr bool operator!=(const precise_unit& o) const { return !(*this == o); }
  private:
    double mult{1.0};
    int dim{0};
};
class unit: public precise_unit { public: using precise_unit::precise_unit; };
constexpr precise_unit error{-1.0, -1};
constexpr precise_unit invalid{-1.0, -1};
constexpr precise_unit defunit{1.0, 0};
constexpr precise_unit one{1.0, 0};
inline precise_unit unit_from_string(const std::string& s, std::uint64_t = 0)
{
    static const std::map<std::string, precise_unit> m{{"m", {1.0, 1}}, {"ft", {0.3048, 1}}, {"km", {1000.0, 1}}, {"s", {1.0, 2}}, {"sec", {1.0, 2}}, {"ms", {1e-3, 2}}, {"ns", {1e-9, 2}}, {"V", {1.0, 3}}, {"kV", {1000.0, 3}}, {"W", {1.0, 4}}, {"kW", {1000.0, 4}}, {"MW", {1e6, 4}}, {"", {1.0, 0}}, {"def", {1.0, 0}}};
    auto f = m.find(s);
    return f == m.end() ? invalid : f->second;
}
inline bool is_valid(const precise_unit& u) { return u.base() >= 0; }
inline bool is_error(const precise_unit& u) { return u.base() < 0; }
inline double convert(double v, const precise_unit& a, const precise_unit& b) { if (a.base() == b.base()) return v * a.multiplier() / b.multiplier(); return std::numeric_limits<double>::quiet_NaN(); }
inline double convert(const precise_unit& a, const precise_unit& b) { return convert(1.0, a, b); }
inline double quick_convert(const precise_unit& a, const precise_unit& b) { return convert(1.0, a, b); }
inline double quick_convert(double v, const precise_unit& a, const precise_unit& b) { return convert(v, a, b); }
inline std::string to_string(const precise_unit&) { return "unit"; }
}  // namespace units
