/* Functional stand-in for the (absent) GMLC-TDC utilities submodule header of the same name.
Written from the interface that HELICS uses; see /verif/DESIGN.md "stand-ins". */
#pragma once
#include <chrono>
#include <cmath>
#include <cstdint>
#include <limits>
#include <type_traits>

enum class time_units : int { ps = 0, ns = 1, us = 2, ms = 3, s = 4, sec = 5, minutes = 6, hr = 7, day = 8, week = 9, month = 10, year = 11 };

constexpr double timeCountForward[12] = {1e12, 1e9, 1e6, 1e3, 1.0, 1.0, 1.0 / 60.0, 1.0 / 3600.0, 1.0 / 86400.0, 1.0 / (7 * 86400.0), 1.0 / (30 * 86400.0), 1.0 / (365 * 86400.0)};
constexpr double timeCountReverse[12] = {1e-12, 1e-9, 1e-6, 1e-3, 1.0, 1.0, 60.0, 3600.0, 86400.0, 7 * 86400.0, 30 * 86400.0, 365 * 86400.0};

constexpr double toSecondMultiplier(time_units units) { return timeCountReverse[static_cast<int>(units)]; }

constexpr std::int64_t fac10(int N) { return (N <= 0) ? 1 : 10 * fac10(N - 1); }

template<int N, typename base = std::int64_t>
class count_time {
  public:
    using baseType = base;
    static constexpr std::int64_t iFactor = fac10(N);
    static constexpr double dFactor = static_cast<double>(fac10(N));
    static constexpr baseType maxVal() noexcept { return (std::numeric_limits<baseType>::max)(); }
    static constexpr baseType minVal() noexcept { return (std::numeric_limits<baseType>::min)() + 1; }
    static constexpr baseType zeroVal() noexcept { return baseType(0); }
    static constexpr baseType epsilon() noexcept { return baseType(1); }
    static constexpr double maxTime() noexcept { return static_cast<double>(maxVal()) / dFactor; }
    static constexpr baseType convert(double t) noexcept
    {
        return (t > -1e12 && t >= maxTime()) ? maxVal() :
            (t <= -maxTime())                ? minVal() :
                                               static_cast<baseType>((t * dFactor >= 0.0) ? (t * dFactor + 0.5) : (t * dFactor - 0.5));
    }
    static constexpr double toDouble(baseType v) noexcept
    {
        return static_cast<double>(v / iFactor) + static_cast<double>(v % iFactor) / dFactor;
    }
    static constexpr baseType fromCount(std::int64_t count, time_units units) noexcept
    {
        switch (units) {
            case time_units::ps: return N >= 12 ? count * fac10(N - 12) : count / fac10(12 - N);
            case time_units::ns: return N >= 9 ? count * fac10(N - 9) : count / fac10(9 - N);
            case time_units::us: return count * fac10(N - 6);
            case time_units::ms: return count * fac10(N - 3);
            case time_units::s:
            case time_units::sec: return count * iFactor;
            case time_units::minutes: return count * 60 * iFactor;
            case time_units::hr: return count * 3600 * iFactor;
            case time_units::day: return count * 86400 * iFactor;
            default: return static_cast<baseType>(static_cast<double>(count) * toSecondMultiplier(units) * dFactor);
        }
    }
    static constexpr std::int64_t toCount(baseType v, time_units units) noexcept
    {
        switch (units) {
            case time_units::ps: return N >= 12 ? v / fac10(N - 12) : v * fac10(12 - N);
            case time_units::ns: return N >= 9 ? v / fac10(N - 9) : v * fac10(9 - N);
            case time_units::us: return v / fac10(N - 6);
            case time_units::ms: return v / fac10(N - 3);
            case time_units::s:
            case time_units::sec: return v / iFactor;
            default: return static_cast<std::int64_t>(toDouble(v) / toSecondMultiplier(units));
        }
    }
    static constexpr std::int64_t seconds(baseType v) noexcept { return v / iFactor; }
};

template<class Tconv>
class TimeRepresentation {
  public:
    using baseType = typename Tconv::baseType;

  private:
    baseType timecode{};
    constexpr TimeRepresentation(std::nullptr_t, baseType bt) noexcept: timecode(bt) {}

  public:
    constexpr TimeRepresentation() noexcept = default;
    constexpr TimeRepresentation(double t) noexcept: timecode(Tconv::convert(t)) {}
    constexpr TimeRepresentation(std::int64_t count, time_units units) noexcept: timecode(Tconv::fromCount(count, units)) {}
    template<class Rep, class Period>
    constexpr TimeRepresentation(std::chrono::duration<Rep, Period> d) noexcept:
        timecode(Tconv::fromCount(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(), time_units::ns)) {}
    static constexpr TimeRepresentation maxVal() noexcept { return {nullptr, Tconv::maxVal()}; }
    static constexpr TimeRepresentation minVal() noexcept { return {nullptr, Tconv::minVal()}; }
    static constexpr TimeRepresentation zeroVal() noexcept { return {nullptr, Tconv::zeroVal()}; }
    static constexpr TimeRepresentation epsilon() noexcept { return {nullptr, Tconv::epsilon()}; }
    static constexpr TimeRepresentation fromBaseTimeCode(baseType v) noexcept { return {nullptr, v}; }
    constexpr baseType getBaseTimeCode() const noexcept { return timecode; }
    constexpr void setBaseTimeCode(baseType v) noexcept { timecode = v; }
    std::chrono::milliseconds to_ms() const noexcept { return std::chrono::milliseconds(Tconv::toCount(timecode, time_units::ms)); }
    std::chrono::nanoseconds to_ns() const noexcept { return std::chrono::nanoseconds(Tconv::toCount(timecode, time_units::ns)); }
    constexpr std::int64_t toCount(time_units units) const noexcept { return Tconv::toCount(timecode, units); }
    constexpr std::int64_t seconds() const noexcept { return Tconv::seconds(timecode); }
    constexpr operator double() const noexcept { return Tconv::toDouble(timecode); }

    constexpr TimeRepresentation& operator+=(TimeRepresentation o) noexcept { timecode += o.timecode; return *this; }
    constexpr TimeRepresentation& operator-=(TimeRepresentation o) noexcept { timecode -= o.timecode; return *this; }
    constexpr TimeRepresentation& operator*=(double m) noexcept { timecode = Tconv::convert(Tconv::toDouble(timecode) * m); return *this; }
    constexpr TimeRepresentation& operator/=(double m) noexcept { timecode = Tconv::convert(Tconv::toDouble(timecode) / m); return *this; }
    constexpr TimeRepresentation& operator=(double t) noexcept { timecode = Tconv::convert(t); return *this; }
    constexpr TimeRepresentation operator-() const noexcept { return {nullptr, -timecode}; }

#define GMLC_TR_CMP(OP)                                                                             \
    friend constexpr bool operator OP(TimeRepresentation a, TimeRepresentation b) noexcept { return a.timecode OP b.timecode; } \
    friend constexpr bool operator OP(TimeRepresentation a, double b) noexcept { return a.timecode OP TimeRepresentation(b).timecode; } \
    friend constexpr bool operator OP(double a, TimeRepresentation b) noexcept { return TimeRepresentation(a).timecode OP b.timecode; }
    GMLC_TR_CMP(==) GMLC_TR_CMP(!=) GMLC_TR_CMP(<) GMLC_TR_CMP(>) GMLC_TR_CMP(<=) GMLC_TR_CMP(>=)
#undef GMLC_TR_CMP
    friend constexpr TimeRepresentation operator+(TimeRepresentation a, TimeRepresentation b) noexcept { return {nullptr, a.timecode + b.timecode}; }
    friend constexpr TimeRepresentation operator-(TimeRepresentation a, TimeRepresentation b) noexcept { return {nullptr, a.timecode - b.timecode}; }
    friend constexpr TimeRepresentation operator+(TimeRepresentation a, double b) noexcept { return a + TimeRepresentation(b); }
    friend constexpr TimeRepresentation operator-(TimeRepresentation a, double b) noexcept { return a - TimeRepresentation(b); }
    friend constexpr TimeRepresentation operator+(double a, TimeRepresentation b) noexcept { return TimeRepresentation(a) + b; }
    friend constexpr TimeRepresentation operator-(double a, TimeRepresentation b) noexcept { return TimeRepresentation(a) - b; }
    friend constexpr TimeRepresentation operator*(TimeRepresentation a, double b) noexcept { return TimeRepresentation(static_cast<double>(a) * b); }
    friend constexpr double operator*(double b, TimeRepresentation a) noexcept { return static_cast<double>(a) * b; }
    friend constexpr TimeRepresentation operator*(TimeRepresentation a, std::int64_t b) noexcept { return {nullptr, a.timecode * b}; }
    friend constexpr TimeRepresentation operator*(std::int64_t b, TimeRepresentation a) noexcept { return {nullptr, a.timecode * b}; }
    friend constexpr TimeRepresentation operator*(TimeRepresentation a, int b) noexcept { return {nullptr, a.timecode * b}; }
    friend constexpr TimeRepresentation operator*(int b, TimeRepresentation a) noexcept { return {nullptr, a.timecode * b}; }
    friend constexpr TimeRepresentation operator/(TimeRepresentation a, double b) noexcept { return TimeRepresentation(static_cast<double>(a) / b); }
    friend constexpr TimeRepresentation operator/(TimeRepresentation a, int b) noexcept { return {nullptr, a.timecode / b}; }
    friend constexpr double operator/(TimeRepresentation a, TimeRepresentation b) noexcept { return static_cast<double>(a) / static_cast<double>(b); }
    friend constexpr TimeRepresentation operator%(TimeRepresentation a, TimeRepresentation b) noexcept { return {nullptr, a.timecode % b.timecode}; }
};

template<class Tconv>
inline TimeRepresentation<Tconv> abs(TimeRepresentation<Tconv> v) { return (v.getBaseTimeCode() < 0) ? -v : v; }

namespace std {
template<class Tconv>
struct hash<TimeRepresentation<Tconv>> {
    size_t operator()(const TimeRepresentation<Tconv>& t) const noexcept { return std::hash<typename Tconv::baseType>()(t.getBaseTimeCode()); }
};
}  // namespace std
