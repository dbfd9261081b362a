#pragma once
#include <oscpack/osc/OscTypes.h>
#include <oscpack/osc/OscException.h>
#include <cassert>
#include <cstring>
// the fork accepts an int size
#define osc oscpack
#include "/usr/include/oscpack/osc/OscReceivedElements.h"
#undef osc
