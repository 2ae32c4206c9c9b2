#pragma once
#include <sstream>
namespace shimlog { struct Null { template<class T> Null& operator<<(const T&) { return *this; } Null& operator<<(std::ostream&(*)(std::ostream&)) { return *this; } }; }
#define LOG_DEBUG_S shimlog::Null()
#define LOG_INFO_S shimlog::Null()
#define LOG_WARN_S shimlog::Null()
#define LOG_ERROR_S shimlog::Null()
#define LOG_DEBUG(...) do {} while(0)
#define LOG_INFO(...) do {} while(0)
#define LOG_WARN(...) do {} while(0)
#define LOG_ERROR(...) do {} while(0)
