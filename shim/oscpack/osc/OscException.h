#pragma once
#include <exception>
#include <stdexcept>
#define osc oscpack
#include "/usr/include/oscpack/osc/OscException.h"
#undef osc
