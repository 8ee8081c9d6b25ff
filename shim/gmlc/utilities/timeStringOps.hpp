#pragma once
#include "stringConversion.h"
#include "timeRepresentation.hpp"
#include <stdexcept>
#include <string>
namespace gmlc::utilities {
inline time_units timeUnitsFromString(std::string_view unitString)
{
    auto s = string_viewOps::trim(unitString);
    if (s == "ps") return time_units::ps;
    if (s == "ns") return time_units::ns;
    if (s == "us") return time_units::us;
    if (s == "ms") return time_units::ms;
    if (s == "s" || s == "sec" || s == "seconds" || s == "second" || s.empty()) return time_units::sec;
    if (s == "min" || s == "minute" || s == "minutes") return time_units::minutes;
    if (s == "hr" || s == "hour" || s == "hours" || s == "h") return time_units::hr;
    if (s == "day" || s == "days") return time_units::day;
    if (s == "week" || s == "weeks") return time_units::week;
    throw(std::invalid_argument(std::string("unable to find unit ") + std::string(unitString)));
}
inline double getTimeValue(std::string_view timeString, time_units defUnit = time_units::sec)
{
    const std::string s(timeString);
    size_t pos = 0;
    double val = std::stod(s, &pos);
    auto rest = string_viewOps::trim(std::string_view(s).substr(pos));
    const auto u = rest.empty() ? defUnit : timeUnitsFromString(rest);
    return val * toSecondMultiplier(u);
}
template<class timeX>
timeX loadTimeFromString(std::string_view timeString, time_units defUnits) { return timeX(getTimeValue(timeString, defUnits)); }
template<class timeX>
timeX loadTimeFromString(std::string_view timeString) { return timeX(getTimeValue(timeString, time_units::sec)); }
}  // namespace gmlc::utilities
