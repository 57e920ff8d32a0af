// Force-included in front of every translation unit of the library and the harnesses.
#pragma once
#include <numeric>
#include <stdexcept>
#define EIGEN_SPARSEMATRIX_PLUGIN "moment_eigen_plugin/eigen_sparse_plugin.h"
