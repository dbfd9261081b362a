#pragma once
namespace libremidi { enum class API { UNSPECIFIED, DUMMY }; }
