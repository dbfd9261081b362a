#pragma once
#include <brigand/brigand_shim.hpp>
