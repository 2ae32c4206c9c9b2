#pragma once
#include <vector>
#include <base/Time.hpp>
#include <base/Eigen.hpp>
namespace base { namespace samples { struct DistanceImage { Time time; uint16_t width, height; float scale_x, scale_y, center_x, center_y;
 std::vector<float> data; DistanceImage():width(0),height(0),scale_x(1),scale_y(1),center_x(0),center_y(0){} }; } }
