#pragma once
#include <base/Eigen.hpp>
