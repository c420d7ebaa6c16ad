#pragma once
#include "steering_functions/steering_functions.hpp"
class HC00_Reeds_Shepp_State_Space {
 public:
  HC00_Reeds_Shepp_State_Space(double kappa, double, double step = 0.1, bool fwd = true) : k(kappa), st(step), f(fwd) {}
  std::vector<steer::Control> get_controls(const steer::State& a, const steer::State& b) const {return shim::reedsShepp(a, b, k);}
  std::vector<steer::State> get_path(const steer::State& a, const steer::State& b) const {return shim::integrate(a, get_controls(a, b), st);}
 private:
  double k, st; bool f;
};
