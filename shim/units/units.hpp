/* small functional stand-in for the (absent) LLNL units submodule: a handful of units, enough to parse and link */
#pragma once
#include <cmath>
#include <cstdint>
#include <limits>
#include <string>

#include "units_conversion_maps.hpp"
