#pragma once
#include "stringOps.h"
#include "string_viewConversion.h"
