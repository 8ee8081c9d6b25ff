/* interface-only stand-in: parsed, never linked */
#pragma once
#include "TcpConnection.h"
