// Independent logarithm of a rigid transform (rotation first), for steps with a rotation angle below pi.
#pragma once
#include "trace.hpp"
namespace vt {
inline Eigen::Matrix<double, 6, 1> se3_log(const Eigen::Isometry3d& T) {
  Eigen::Matrix<double, 6, 1> r;
  const Eigen::Quaterniond q0(T.linear());
  Eigen::Quaterniond q = q0.w() < 0 ? Eigen::Quaterniond(-q0.w(), -q0.x(), -q0.y(), -q0.z()) : q0;
  const double s = q.vec().norm();
  const double angle = 2.0 * std::atan2(s, q.w());
  const Eigen::Vector3d w = s < 1e-9 ? Eigen::Vector3d(2.0 * q.vec()) : Eigen::Vector3d(q.vec() * (angle / s));
  Eigen::Matrix3d W;
  W << 0, -w[2], w[1], w[2], 0, -w[0], -w[1], w[0], 0;
  Eigen::Matrix3d V = Eigen::Matrix3d::Identity(), P = Eigen::Matrix3d::Identity();  // V = sum W^n / (n+1)!
  double f = 1.0;
  for (int n = 1; n < 40; n++) { P = P * W; f *= n + 1; V += P / f; }
  r << w, V.fullPivLu().solve(Eigen::Vector3d(T.translation()));
  return r;
}
inline Eigen::Isometry3d random_isometry(Rng& r, double trans) {
  Eigen::Isometry3d T = Eigen::Isometry3d::Identity();
  Eigen::Quaterniond q(r.in(-1000, 1000) + 0.5, r.in(-1000, 1000), r.in(-1000, 1000), r.in(-1000, 1000));
  T.linear() = q.normalized().toRotationMatrix();
  T.translation() = Eigen::Vector3d(r.in(-1000, 1000), r.in(-1000, 1000), r.in(-1000, 1000)) * (trans / 1000.0);
  return T;
}
}  // namespace vt
