#pragma once
#include <flat/flat_map.hpp>
