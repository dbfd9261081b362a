#pragma once
#include <flat/flat_set.hpp>
