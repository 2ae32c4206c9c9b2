#pragma once
#include <stdint.h>
#include <ostream>
namespace base {
struct Time {
    int64_t microseconds;
    Time() : microseconds(0) {}
    static Time now() { return Time(); }
    static Time fromMicroseconds(int64_t v) { Time t; t.microseconds = v; return t; }
    static Time fromSeconds(double v) { Time t; t.microseconds = int64_t(v * 1e6); return t; }
    int64_t toMicroseconds() const { return microseconds; }
    double toSeconds() const { return microseconds / 1e6; }
    bool operator<(const Time& o) const { return microseconds < o.microseconds; }
    bool operator==(const Time& o) const { return microseconds == o.microseconds; }
    Time operator-(const Time& o) const { return fromMicroseconds(microseconds - o.microseconds); }
};
}
