#pragma once
#include <vector>
#include <base/Time.hpp>
#include <base/Eigen.hpp>
namespace base { namespace samples { struct LaserScan { Time time; double start_angle, angular_resolution, speed;
 std::vector<uint32_t> ranges; uint32_t minRange, maxRange; std::vector<float> remission;
 LaserScan():start_angle(0),angular_resolution(0),speed(0),minRange(0),maxRange(0){} }; } }
