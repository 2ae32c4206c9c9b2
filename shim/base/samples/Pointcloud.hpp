#pragma once
#include <vector>
#include <base/Time.hpp>
#include <base/Eigen.hpp>
namespace base { namespace samples { struct Pointcloud { Time time; std::vector<base::Vector3d> points; std::vector<base::Vector4d> colors; }; } }
