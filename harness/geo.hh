// Reference geometry in extended precision, independent of the code under test.
#pragma once
#include <Eigen/Dense>

#include "resim/transforms/se3.hh"
#include "resim/transforms/so3.hh"
#include "vh.hh"

namespace vh {
using resim::transforms::SE3;
using resim::transforms::SO3;
using Frame3 = resim::transforms::Frame<3>;
using FVec = resim::transforms::FramedVector<3>;
using V3 = Eigen::Vector3d;
using V6 = Eigen::Matrix<double, 6, 1>;
using M3 = Eigen::Matrix3d;
using LD = long double;
using V3l = Eigen::Matrix<LD, 3, 1>;
using V6l = Eigen::Matrix<LD, 6, 1>;
using M3l = Eigen::Matrix<LD, 3, 3>;
using M4l = Eigen::Matrix<LD, 4, 4>;
using M6l = Eigen::Matrix<LD, 6, 6>;
constexpr double PI = 3.14159265358979323846;
constexpr LD PIL = 3.14159265358979323846264338327950288L;

inline M3l hat3(const V3l &w) {
  M3l m;
  m << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0;
  return m;
}
// [rotation; translation] -> 4x4 Lie algebra element.
inline M4l hat(const V6l &a) {
  M4l m = M4l::Zero();
  m.template block<3, 3>(0, 0) = hat3(a.template head<3>());
  m.template block<3, 1>(0, 3) = a.template tail<3>();
  return m;
}
// Matrix exponential by scaling and squaring with a Taylor series.
template <typename M>
M expm(const M &x) {
  const LD n = x.cwiseAbs().rowwise().sum().maxCoeff();
  int k = 0;
  while (std::ldexp(n, -k) > 0.25L && k < 60) ++k;
  const M y = x * std::ldexp(static_cast<LD>(1), -k);
  M term = M::Identity(), sum = M::Identity();
  for (int i = 1; i < 26; ++i) {
    term = term * y / static_cast<LD>(i);
    sum += term;
  }
  for (int i = 0; i < k; ++i) sum = sum * sum;
  return sum;
}
// Rodrigues formula.
inline M3l rodrigues(LD angle, const V3l &unit) {
  const M3l k = hat3(unit);
  const LD s = std::sin(angle / 2);
  return M3l::Identity() + std::sin(angle) * k + 2 * s * s * k * k;
}
inline M3l exp3(const V3l &w) {
  const LD n = w.norm();
  if (n < 1e-2L) {
    const M3l k = hat3(w);
    return expm<M3l>(k);
  }
  return rodrigues(n, w / n);
}
// The left Jacobian V with exp([w,v]) = (exp w, V v), in closed form where that
// is well conditioned and as a series elsewhere.
inline M3l jac3(const V3l &w) {
  const LD n = w.norm();
  const M3l k = hat3(w);
  if (n < 0.3L) {
    M3l term = M3l::Identity(), sum = M3l::Identity();
    for (int i = 1; i < 24; ++i) {
      term = term * k / static_cast<LD>(i + 1);
      sum += term;
    }
    return sum;
  }
  const LD n2 = n * n;
  const LD s = std::sin(n / 2);
  return M3l::Identity() + (2 * s * s / n2) * k + ((n - std::sin(n)) / (n2 * n)) * (k * k);
}
inline M4l exp6(const V6l &a) {
  M4l m = M4l::Identity();
  const V3l w = a.template head<3>();
  m.template block<3, 3>(0, 0) = exp3(w);
  m.template block<3, 1>(0, 3) = jac3(w) * a.template tail<3>();
  return m;
}
inline M4l mat(const SE3 &g) {
  M4l m = M4l::Identity();
  m.block<3, 3>(0, 0) = g.rotation().rotation_matrix().cast<LD>();
  m.block<3, 1>(0, 3) = g.translation().cast<LD>();
  return m;
}
inline M3l mat(const SO3 &g) { return g.rotation_matrix().cast<LD>(); }
inline M4l rigid_inverse(const M4l &m) {
  M4l r = M4l::Identity();
  r.block<3, 3>(0, 0) = m.block<3, 3>(0, 0).transpose();
  r.block<3, 1>(0, 3) = -(m.block<3, 3>(0, 0).transpose() * m.block<3, 1>(0, 3));
  return r;
}
template <typename A, typename B>
LD maxdiff(const A &a, const B &b) {
  const LD d = (a.template cast<LD>() - b.template cast<LD>()).cwiseAbs().maxCoeff();
  return std::isnan(static_cast<double>(d)) ? std::numeric_limits<LD>::infinity() : d;
}
template <typename A>
std::string str(const A &a) {
  std::ostringstream o;
  o.precision(17);
  o << "[" << a.transpose().template cast<double>().format(Eigen::IOFormat(17, 0, ",", ";")) << "]";
  return o.str();
}
// Angle of the rotation between two rotation matrices, accurate near 0 and pi.
inline LD rot_angle(const M3l &r) {
  const V3l a(r(2, 1) - r(1, 2), r(0, 2) - r(2, 0), r(1, 0) - r(0, 1));
  return std::atan2(a.norm(), r.trace() - 1);
}

inline V3 gen_unit(Rng &r) {
  switch (r() % 6) {
    case 0: {
      V3 v = V3::Zero();
      v(static_cast<long>(r() % 3)) = r.chance(.5) ? 1 : -1;
      return v;
    }
    case 1: {  // two equal or nearly vanishing components
      V3 v(1, r.chance(.5) ? 1 : -1, r.chance(.5) ? 0 : 1e-9);
      const int k = static_cast<int>(r() % 3);
      return V3(v((0 + k) % 3), v((1 + k) % 3), v((2 + k) % 3)).normalized();
    }
    default: {
      V3 v;
      do {
        v = V3(r.normal(), r.normal(), r.normal());
      } while (v.norm() < 1e-6);
      return v.normalized();
    }
  }
}
// Rotation angles in [0, pi): edge-biased around the branches of exp/log.
inline double gen_angle(Rng &r) {
  switch (r() % 10) {
    case 0: return 0;
    case 1: return r.log_uniform(-12, -3);
    case 2: return 2e-3 * (1 + (r.chance(.5) ? 1 : -1) * r.log_uniform(-9, -1));
    case 3: return 3.0 * (1 + (r.chance(.5) ? 1 : -1) * r.log_uniform(-9, -2));
    case 4: return PI - r.log_uniform(-8, -1);
    case 5: return r.pick<double>({PI / 2, PI / 3, PI / 4, 1.0, 2.0, 2 * PI / 3, 3.0});
    default: return r.uniform(0, PI - 1e-3);
  }
}
inline V3 gen_trans(Rng &r) {
  switch (r() % 8) {
    case 0: return V3::Zero();
    case 1: return gen_unit(r) * r.log_uniform(-9, -3);
    case 2: return gen_unit(r) * r.log_uniform(2, 6);
    case 3: return gen_unit(r);
    default: return gen_unit(r) * r.uniform(0, 20);
  }
}
inline V3 gen_rotvec(Rng &r) { return gen_unit(r) * gen_angle(r); }
inline V6 gen_tangent(Rng &r) {
  V6 a;
  a.head<3>() = gen_rotvec(r);
  a.tail<3>() = gen_trans(r);
  if (r.chance(.1) && a.head<3>().norm() > 0)  // screw axis along the motion
    a.tail<3>() = a.head<3>().normalized() * r.uniform(-5, 5);
  return a;
}
inline M3 gen_rotmat(Rng &r) {
  const V3 w = gen_rotvec(r);
  return exp3(w.cast<LD>()).cast<double>();
}
inline SO3 gen_so3(Rng &r) { return SO3(gen_rotmat(r)); }
inline SE3 gen_se3(Rng &r) { return SE3(gen_so3(r), gen_trans(r)); }
inline SE3 gen_se3(Rng &r, const Frame3 &into, const Frame3 &from) {
  return SE3(gen_so3(r), gen_trans(r), into, from);
}
inline void feed(Case &c, const Eigen::Ref<const Eigen::MatrixXd> &m) {
  for (long i = 0; i < m.size(); ++i) c.in(m(i % m.rows(), i / m.rows()));
}
inline void feed(Case &c, const SE3 &g) {
  feed(c, g.rotation().rotation_matrix());
  feed(c, g.translation());
}
inline void feed(Case &c, const SO3 &g) { feed(c, g.rotation_matrix()); }
inline std::string str(const SE3 &g) {
  return cat("SE3{R=", str(g.rotation().rotation_matrix()), " t=", str(g.translation()), "}");
}
inline std::string str(const SO3 &g) { return cat("SO3{", str(g.rotation_matrix()), "}"); }
inline double scale(const SE3 &g) { return 1 + g.translation().norm(); }
}  // namespace vh
