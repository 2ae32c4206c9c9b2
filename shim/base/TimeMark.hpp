#pragma once
#include <string>
#include <base/Time.hpp>
namespace base { struct TimeMark { std::string l; TimeMark(const std::string& l) : l(l) {} };
inline std::ostream& operator<<(std::ostream& o, const TimeMark&) { return o; } }
