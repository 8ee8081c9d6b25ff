#pragma once
#include "MapTraits.hpp"
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <deque>
#include <vector>
