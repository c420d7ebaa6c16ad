#pragma once
#include <algorithm>
#include <cmath>
#include <fstream>
#include <sstream>
#include <vector>
using std::max;
using std::min;
inline void end_of_clothoid(double x, double y, double th, double k, double sigma, double dir, double len,
    double* xf, double* yf, double* thf, double* kf) {
  const int n = 20000;
  double h = len / n;
  auto ang = [&] (double s) {return th + dir * (k * s + 0.5 * sigma * s * s);};
  for (int i = 0; i < n; ++i) {
    double m = ang((i + 0.5) * h);
    x += dir * h * std::cos(m); y += dir * h * std::sin(m);
  }
  *xf = x; *yf = y; *thf = ang(len); *kf = k + sigma * len;
}
