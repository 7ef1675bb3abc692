// Reference calculus of pose jets: a pose with its first two time derivatives as
// plain 4x4 matrices, differentiated by the product rule.
#pragma once
#include "geo.hh"
#include "resim/curves/two_jet.hh"

namespace vh {
using resim::curves::TwoJetL;
using resim::curves::TwoJetR;

inline M4l embed(const M3l &r) {
  M4l m = M4l::Identity();
  m.block<3, 3>(0, 0) = r;
  return m;
}
inline M4l mat4(const SE3 &g) { return mat(g); }
inline M4l mat4(const SO3 &g) { return embed(mat(g)); }
inline M4l hat4(const V6 &a) { return hat(a.cast<LD>()); }
inline M4l hat4(const V3 &a) {
  V6l x = V6l::Zero();
  x.head<3>() = a.cast<LD>();
  return hat(x);
}
struct Jet {
  M4l g, d, d2;
};
// Left: dg = D g, with D' the second tangent; right: dg = g D.
template <typename G>
Jet jet(const TwoJetL<G> &t) {
  const M4l g = mat4(t.frame_from_ref()), D = hat4(t.d_frame_from_ref()), A = hat4(t.d2_frame_from_ref());
  return {g, D * g, (A + D * D) * g};
}
template <typename G>
Jet jet(const TwoJetR<G> &t) {
  const M4l g = mat4(t.ref_from_frame()), D = hat4(t.d_ref_from_frame()), A = hat4(t.d2_ref_from_frame());
  return {g, g * D, g * (A + D * D)};
}
inline Jet mul(const Jet &a, const Jet &b) {
  return {a.g * b.g, a.d * b.g + a.g * b.d, a.d2 * b.g + 2 * a.d * b.d + a.g * b.d2};
}
inline Jet inv(const Jet &a) {
  const M4l i = rigid_inverse(a.g);
  const M4l d = -i * a.d * i;
  return {i, d, -d * a.d * i - i * a.d2 * i - i * a.d * d};
}
inline LD jdiff(const Jet &a, const Jet &b) {
  return std::max({maxdiff(a.g, b.g), maxdiff(a.d, b.d), maxdiff(a.d2, b.d2)});
}
inline LD jscale(const Jet &a) {
  return 1 + a.g.cwiseAbs().maxCoeff() + a.d.cwiseAbs().maxCoeff() + a.d2.cwiseAbs().maxCoeff();
}
template <typename G>
typename G::TangentVector gen_deriv(Rng &r) {
  typename G::TangentVector v;
  if (r.chance(.1)) return G::TangentVector::Zero();
  const double s = r.chance(.2) ? r.log_uniform(-6, 2) : 2;
  for (long i = 0; i < v.size(); ++i) v(i) = r.normal() * s;
  return v;
}
template <typename G>
G gen_group(Rng &r);
template <>
inline SO3 gen_group<SO3>(Rng &r) {
  return gen_so3(r);
}
template <>
inline SE3 gen_group<SE3>(Rng &r) {
  return gen_se3(r);
}
template <typename J>
J gen_jet(Rng &r) {
  using G = typename J::GroupType;
  return J(gen_group<G>(r), gen_deriv<G>(r), gen_deriv<G>(r));
}
template <typename J>
J gen_jet(Rng &r, const Frame3 &into, const Frame3 &from) {
  using G = typename J::GroupType;
  G g = gen_group<G>(r);
  g.set_frames(into, from);
  return J(g, gen_deriv<G>(r), gen_deriv<G>(r));
}
}  // namespace vh
