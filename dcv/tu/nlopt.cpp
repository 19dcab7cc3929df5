// Compile driver: instantiates the real template from /repo so that clang produces its body.
#include "mav_trajectory_generation/polynomial_optimization_nonlinear.h"
template class mav_trajectory_generation::PolynomialOptimizationNonLinear<10>;
