// Stand-in for the steering_functions library, which is not installed here: the
// same interface as used by Fields2Cover, with its own (simpler) solutions.
#pragma once
#include <vector>
namespace steer {
struct State {double x {0}, y {0}, theta {0}, kappa {0}, sigma {0}, d {0}, s {0}, vel {0}, acc {0}, time {0};};
struct Control {double delta_s {0}, kappa {0}, sigma {0};};
}  // namespace steer
namespace shim {
std::vector<steer::Control> dubins(const steer::State& a, const steer::State& b, double kappa, bool forward = true);
std::vector<steer::Control> reedsShepp(const steer::State& a, const steer::State& b, double kappa);
std::vector<steer::State> integrate(const steer::State& a, const std::vector<steer::Control>& c, double step);
}  // namespace shim
