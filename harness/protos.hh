// Generators and comparers for everything that has a wire form.
#pragma once
#include "ints.hh"
#include "jets.hh"
#include "resim/actor/state/proto/trajectory_to_proto.hh"
#include "resim/actor/state/trajectory.hh"
#include "resim/assert/assert.hh"
#include "resim/curves/d_curve.hh"
#include "resim/curves/proto/d_curve_se3_to_proto.hh"
#include "resim/curves/proto/t_curve_se3_to_proto.hh"
#include "resim/curves/proto/t_curve_so3_to_proto.hh"
#include "resim/curves/proto/two_jetl_se3_to_proto.hh"
#include "resim/curves/proto/two_jetl_so3_to_proto.hh"
#include "resim/curves/proto/two_jetr_se3_to_proto.hh"
#include "resim/curves/proto/two_jetr_so3_to_proto.hh"
#include "resim/curves/t_curve.hh"
#include "resim/transforms/proto/frame_3_to_proto.hh"
#include "resim/transforms/proto/framed_vector_3_to_proto.hh"
#include "resim/transforms/proto/se3_to_proto.hh"
#include "resim/transforms/proto/so3_to_proto.hh"
#include "resim/utils/proto/uuid_to_proto.hh"
#include "resim/visualization/proto/view_primitive_to_proto.hh"
#include "resim/visualization/proto/view_update_to_proto.hh"

namespace vh {
namespace pt = resim::transforms::proto;
namespace pc = resim::curves::proto;
namespace pa = resim::actor::state::proto;
namespace pv = resim::visualization::proto;
namespace pu = resim::proto;
using resim::AssertException;
using resim::UUID;
using resim::actor::state::Trajectory;
using resim::time::Duration;
using resim::time::Timestamp;
using resim::visualization::ViewPrimitive;
using resim::visualization::ViewUpdate;
template <typename G>
using TCurve = resim::curves::TCurve<G>;
using DCurve = resim::curves::DCurve<SE3>;

struct Frames {
  Frame3 into, from;
};
inline Frames gen_frames(Rng &r) {
  if (r.chance(.3)) return {};
  const Frame3 into = Frame3::new_frame();
  if (r.chance(.15)) return {into, into};
  if (r.chance(.15)) {  // a frame whose identifier differs in one bit
    auto b = into.id().id();
    std::array<unsigned char, 16> a{};
    std::copy(b.begin(), b.end(), a.begin());
    a[r() % 16] ^= static_cast<unsigned char>(1U << (r() % 8));
    return {into, Frame3(UUID(a))};
  }
  return {into, Frame3::new_frame()};
}
template <typename G>
G with(G g, const Frames &f) {
  if (!f.into.is_null()) g.set_frames(f.into, f.from);
  return g;
}
// Any 128-bit identifier.
inline UUID gen_uuid(Rng &r) {
  if (r.chance(.5)) return UUID::new_uuid();
  if (r.chance(.1)) return UUID();
  std::array<unsigned char, 16> b{};
  for (auto &x : b) x = r.chance(.3) ? r.pick<unsigned char>({0, 255, 0x0f, 0xf0, 0x80}) : static_cast<unsigned char>(r());
  return UUID(b);
}
// Poses including exact half turns, where the wire form is most delicate.
template <typename G>
G gen_wire_group(Rng &r) {
  if (!r.chance(.1)) return gen_group<G>(r);
  const M3 half = rodrigues(r.chance(.3) ? PIL : PIL - static_cast<LD>(r.log_uniform(-16, -6)), gen_unit(r).cast<LD>().normalized()).cast<double>();
  if constexpr (std::is_same_v<G, SO3>)
    return SO3(half);
  else
    return SE3(SO3(half), gen_trans(r));
}
inline DCurve gen_dcurve(Rng &r) {
  const int64_t n = r.chance(.1) ? 0 : r.chance(.1) ? 1 : r.chance(.03) ? r.range(50, 300) : r.range(2, 9);
  const Frames f = gen_frames(r);
  std::vector<SE3> p;
  for (int64_t i = 0; i < n; ++i)
    p.push_back(i > 0 && r.chance(.1) ? p.back() : with(gen_wire_group<SE3>(r), f));
  if (n > 2 && r.chance(.15)) p.push_back(p.front());  // closed
  return DCurve(p);
}
inline double gen_step(Rng &r) { return r.chance(.2) ? r.log_uniform(-6, 4) : r.uniform(.1, 3); }
template <typename G>
TCurve<G> gen_tcurve(Rng &r, bool at_zero = false) {
  const int64_t n = r.chance(.1) ? 0 : r.chance(.1) ? 1 : r.chance(.03) ? r.range(50, 300) : r.range(2, 8);
  const Frames f = gen_frames(r);
  TCurve<G> t;
  double when = at_zero ? 0 : r.pick<double>({0.0, -3.25, 1e9, r.normal()});
  for (int64_t i = 0; i < n; ++i) {
    t.append({when, TwoJetL<G>(with(gen_wire_group<G>(r), f), gen_deriv<G>(r), gen_deriv<G>(r))});
    const double next = when + (r.chance(.06) ? std::fabs(when) * 3e-15 + r.log_uniform(-16, -6) : std::max(gen_step(r), std::fabs(when) * 1e-9));
    when = next > when ? next : std::nextafter(when, HUGE_VAL);
  }
  return t;
}
inline int64_t gen_ns(Rng &r) {
  switch (r() % 6) {
    case 0: return 0;
    case 1: return r.pick<int64_t>({INT64_MAX, INT64_MIN, 999999999, 1000000000, -1, -999999999, -1000000000, 1, 4294967296LL, 2147483648LL * 1000000000LL});
    case 2: return 1690000000000000000LL + r.range(0, 1000000000);
    case 3: return -r.range(0, 4000000000000000000LL);
    default: return static_cast<int64_t>(r());
  }
}
inline Trajectory gen_trajectory(Rng &r) {
  return Trajectory(gen_tcurve<SE3>(r, true), Timestamp{Duration{gen_ns(r)}});
}
inline FVec gen_fvec(Rng &r) {
  const V3 v = gen_trans(r);
  return r.chance(.3) ? FVec(v) : r.chance(.15) ? FVec(v, Frame3()) : FVec(v, Frame3::new_frame());
}
inline std::string gen_text(Rng &r) {
  static const std::vector<std::string> alpha = {"a", "Z", "0", "_", "-", " ", "/", "\"", "\\", "\n", "\t", "%s", "{}", "{0}", "\xc3\xa9", "\xe2\x82\xac", std::string("\0", 1), "//", "."};
  std::string s;
  const int64_t n = r.chance(.05) ? r.range(500, 5000) : r.range(1, 24);
  for (int64_t i = 0; i < n; ++i) s += r.pick(alpha);
  return s;
}
inline ViewPrimitive gen_primitive(Rng &r, int kind = -1) {
  ViewPrimitive p{.id = gen_uuid(r), .line_number = 0};
  if (kind < 0) kind = static_cast<int>(r() % 7);
  switch (kind) {
    case 0: p.payload = with(gen_wire_group<SE3>(r), gen_frames(r)); break;
    case 1: p.payload = with(gen_wire_group<SO3>(r), gen_frames(r)); break;
    case 2: p.payload = gen_dcurve(r); break;
    case 3: p.payload = gen_tcurve<SE3>(r); break;
    case 4: p.payload = gen_trajectory(r); break;
    case 5: p.payload = r.chance(.2) ? Frame3() : Frame3::new_frame(); break;
    default: p.payload = gen_fvec(r); break;
  }
  if (r.chance(.5)) p.user_defined_name = gen_text(r);
  p.file_name = r.chance(.1) ? "" : gen_text(r);
  p.line_number = static_cast<int>(r.chance(.3) ? r.pick<int64_t>({0, -1, INT32_MAX, INT32_MIN, 1}) : r.range(1, 100000));
  return p;
}

// ---- comparers: empty string when the values agree, else what differs ----
inline std::string differ(const UUID &a, const UUID &b) { return a == b ? "" : cat("id ", a.to_string(), " vs ", b.to_string()); }
inline std::string differ(const Frame3 &a, const Frame3 &b) { return a == b && a.id() == b.id() ? "" : "frame " + a.id().to_string() + " vs " + b.id().to_string(); }
inline std::string differ(const SE3 &a, const SE3 &b) {
  if (!(a.into() == b.into()) || !(a.from() == b.from()) || a.is_framed() != b.is_framed()) return "frames of a pose differ";
  const LD d = maxdiff(mat(a), mat(b));
  return d <= 1e-11L * scale(a) ? "" : cat("poses differ by ", static_cast<double>(d), ": ", str(a), " vs ", str(b));
}
inline std::string differ(const SO3 &a, const SO3 &b) {
  if (!(a.into() == b.into()) || !(a.from() == b.from()) || a.is_framed() != b.is_framed()) return "frames of a rotation differ";
  const LD d = maxdiff(mat(a), mat(b));
  return d <= 1e-12L ? "" : cat("rotations differ by ", static_cast<double>(d), ": ", str(a), " vs ", str(b));
}
template <typename M>
bool same_bits(const M &a, const M &b) {
  if (a.size() != b.size()) return false;
  for (long i = 0; i < a.size(); ++i)
    if (!(a(i) == b(i))) return false;
  return true;
}
inline std::string differ(const FVec &a, const FVec &b) {
  if (!(a.frame() == b.frame())) return "frame of a vector differs";
  return same_bits(V3(a.vector()), V3(b.vector())) ? "" : cat("vector ", str(a.vector()), " vs ", str(b.vector()));
}
template <typename G>
std::string differ(const TwoJetL<G> &a, const TwoJetL<G> &b) {
  std::string s = differ(a.frame_from_ref(), b.frame_from_ref());
  if (!s.empty()) return s;
  if (!same_bits(a.d_frame_from_ref(), b.d_frame_from_ref())) return cat("first derivative ", str(a.d_frame_from_ref()), " vs ", str(b.d_frame_from_ref()));
  if (!same_bits(a.d2_frame_from_ref(), b.d2_frame_from_ref())) return cat("second derivative ", str(a.d2_frame_from_ref()), " vs ", str(b.d2_frame_from_ref()));
  return "";
}
template <typename G>
std::string differ(const TwoJetR<G> &a, const TwoJetR<G> &b) {
  std::string s = differ(a.ref_from_frame(), b.ref_from_frame());
  if (!s.empty()) return s;
  if (!same_bits(a.d_ref_from_frame(), b.d_ref_from_frame())) return cat("first derivative ", str(a.d_ref_from_frame()), " vs ", str(b.d_ref_from_frame()));
  if (!same_bits(a.d2_ref_from_frame(), b.d2_ref_from_frame())) return cat("second derivative ", str(a.d2_ref_from_frame()), " vs ", str(b.d2_ref_from_frame()));
  return "";
}
inline std::string differ(const DCurve &a, const DCurve &b) {
  const auto &p = a.control_pts(), &q = b.control_pts();
  if (p.size() != q.size()) return cat(p.size(), " control points vs ", q.size());
  if (b.segments().size() + 1 != q.size() && !(q.empty() && b.segments().empty())) return "segments do not match the control points";
  for (size_t i = 0; i < p.size(); ++i) {
    std::string s = differ(*p[i].ref_from_control, *q[i].ref_from_control);
    if (!s.empty()) return cat("control ", i, ": ", s);
    if (!(std::fabs(p[i].arc_length - q[i].arc_length) <= 1e-9 * (1 + p[i].arc_length))) return cat("control ", i, " arc length ", p[i].arc_length, " vs ", q[i].arc_length);
  }
  return "";
}
template <typename G>
std::string differ(const TCurve<G> &a, const TCurve<G> &b) {
  const auto &p = a.control_pts(), &q = b.control_pts();
  if (p.size() != q.size()) return cat(p.size(), " control points vs ", q.size());
  if (b.segments().size() + 1 != q.size() && !(q.empty() && b.segments().empty())) return "segments do not match the control points";
  for (size_t i = 0; i < p.size(); ++i) {
    if (!(p[i].time == q[i].time)) return cat("control ", i, " time ", p[i].time, " vs ", q[i].time);
    std::string s = differ(p[i].point, q[i].point);
    if (!s.empty()) return cat("control ", i, ": ", s);
  }
  return "";
}
inline std::string differ(const Trajectory &a, const Trajectory &b) {
  if (a.start_time() != b.start_time()) return cat("start ", a.start_time().time_since_epoch().count(), " vs ", b.start_time().time_since_epoch().count());
  return differ(a.curve(), b.curve());
}
inline std::string differ(const ViewPrimitive &a, const ViewPrimitive &b) {
  std::string s = differ(a.id, b.id);
  if (!s.empty()) return "primitive " + s;
  if (a.user_defined_name != b.user_defined_name) return "user defined name differs";
  if (a.file_name != b.file_name) return "file name '" + a.file_name + "' vs '" + b.file_name + "'";
  if (a.line_number != b.line_number) return cat("line ", a.line_number, " vs ", b.line_number);
  if (a.payload.index() != b.payload.index()) return cat("payload kind ", a.payload.index(), " vs ", b.payload.index());
  return std::visit(
      [&](const auto &x) -> std::string { return differ(x, std::get<std::decay_t<decltype(x)>>(b.payload)); }, a.payload);
}
inline std::string differ(const ViewUpdate &a, const ViewUpdate &b) {
  if (a.primitives.size() != b.primitives.size()) return cat(a.primitives.size(), " primitives vs ", b.primitives.size());
  for (size_t i = 0; i < a.primitives.size(); ++i) {
    std::string s = differ(a.primitives[i], b.primitives[i]);
    if (!s.empty()) return cat("primitive ", i, ": ", s);
  }
  return "";
}

// ---- does a message say, field by field, what the value is? ----
inline std::string says(const pu::UUID &m, const UUID &v) { return m.data() == v.to_string() ? "" : "uuid text " + m.data() + " for " + v.to_string(); }
inline std::string says(const pt::Frame_3 &m, const Frame3 &v) { return says(m.id(), v.id()); }
template <typename F, typename V>
std::string says_vec(const F &f, const V &v, double tol) {
  if (f.size() != v.size()) return cat(f.size(), " elements for ", v.size());
  for (int i = 0; i < f.size(); ++i)
    if (!(f.Get(i) == v(i)) && !(std::isnan(f.Get(i)) && std::isnan(v(i))) && !(std::fabs(f.Get(i) - v(i)) <= tol)) return cat("element ", i, " is ", f.Get(i), " for ", v(i));
  return "";
}
// How closely can the exponential of these wire numbers be known? Negative when
// not at all: a non-finite number must leave a non-finite transform behind.
template <typename F>
double wire_tol(const F &algebra, bool &finite) {
  finite = true;
  double rot = 0, tr = 0;
  for (int i = 0; i < algebra.size(); ++i) {
    const double x = algebra.Get(i);
    finite = finite && std::isfinite(x);
    (i < 3 ? rot : tr) = std::max(i < 3 ? rot : tr, std::fabs(x));
  }
  if (!finite || rot > 1e4 || tr > 1e100) return -1;
  return 1e-11 * (1 + tr) * (1 + rot);
}
template <typename M>
bool all_finite(const M &m) {
  for (long i = 0; i < m.size(); ++i)
    if (!std::isfinite(static_cast<double>(m(i)))) return false;
  return true;
}
template <typename M>
std::string says_se3(const M &m, const SE3 &v) {
  std::string s = says(m.into(), v.into());
  if (s.empty()) s = says(m.from(), v.from());
  if (!s.empty()) return s;
  if (m.algebra_size() != 6) return cat(m.algebra_size(), " algebra elements");
  V6l a;
  for (int i = 0; i < 6; ++i) a(i) = m.algebra(i);
  bool finite = true;
  const double tol = wire_tol(m.algebra(), finite);
  if (!finite) return all_finite(mat(v)) ? "non-finite algebra became a finite pose" : "";
  if (tol < 0) return "";
  const LD d = maxdiff(exp6(a), mat(v));
  return d <= tol ? "" : cat("algebra exponentiates ", static_cast<double>(d), " away from the pose");
}
inline std::string says(const pt::SE3 &m, const SE3 &v) { return says_se3(m, v); }
inline std::string says(const pt::SO3 &m, const SO3 &v) {
  std::string s = says(m.into(), v.into());
  if (s.empty()) s = says(m.from(), v.from());
  if (!s.empty()) return s;
  if (m.algebra_size() != 3) return cat(m.algebra_size(), " algebra elements");
  V3l a;
  for (int i = 0; i < 3; ++i) a(i) = m.algebra(i);
  bool finite = true;
  const double tol = wire_tol(m.algebra(), finite);
  if (!finite) return all_finite(mat(v)) ? "non-finite algebra became a finite rotation" : "";
  if (tol < 0) return "";
  const LD d = maxdiff(exp3(a), mat(v));
  return d <= tol ? "" : cat("algebra exponentiates ", static_cast<double>(d), " away from the rotation");
}
inline std::string says(const pt::FramedVector_3 &m, const FVec &v) {
  std::string s = says_vec(m.algebra(), V3(v.vector()), 0);
  return s.empty() ? says(m.frame(), v.frame()) : s;
}
template <typename M, typename G>
std::string says_l(const M &m, const TwoJetL<G> &v) {
  std::string s = says(m.frame_from_ref(), v.frame_from_ref());
  if (s.empty()) s = says_vec(m.d_frame_from_ref(), v.d_frame_from_ref(), 0);
  return s.empty() ? says_vec(m.d2_frame_from_ref(), v.d2_frame_from_ref(), 0) : s;
}
template <typename M, typename G>
std::string says_r(const M &m, const TwoJetR<G> &v) {
  std::string s = says(m.ref_from_frame(), v.ref_from_frame());
  if (s.empty()) s = says_vec(m.d_ref_from_frame(), v.d_ref_from_frame(), 0);
  return s.empty() ? says_vec(m.d2_ref_from_frame(), v.d2_ref_from_frame(), 0) : s;
}
inline std::string says(const pc::TwoJetL_SE3 &m, const TwoJetL<SE3> &v) { return says_l(m, v); }
inline std::string says(const pc::TwoJetL_SO3 &m, const TwoJetL<SO3> &v) { return says_l(m, v); }
inline std::string says(const pc::TwoJetR_SE3 &m, const TwoJetR<SE3> &v) { return says_r(m, v); }
inline std::string says(const pc::TwoJetR_SO3 &m, const TwoJetR<SO3> &v) { return says_r(m, v); }
inline std::string says(const pc::DCurve_SE3 &m, const DCurve &v) {
  if (m.ref_from_control_size() != static_cast<int>(v.control_pts().size())) return cat(m.ref_from_control_size(), " poses for ", v.control_pts().size());
  for (int i = 0; i < m.ref_from_control_size(); ++i) {
    std::string s = says(m.ref_from_control(i), *v.control_pts()[static_cast<size_t>(i)].ref_from_control);
    if (!s.empty()) return cat("pose ", i, ": ", s);
  }
  return "";
}
template <typename M, typename G>
std::string says_t(const M &m, const TCurve<G> &v) {
  if (m.points_size() != static_cast<int>(v.control_pts().size())) return cat(m.points_size(), " points for ", v.control_pts().size());
  for (int i = 0; i < m.points_size(); ++i) {
    const auto &q = v.control_pts()[static_cast<size_t>(i)];
    if (!(m.points(i).time() == q.time) && !(std::isnan(m.points(i).time()) && std::isnan(q.time))) return cat("point ", i, " has time ", m.points(i).time(), " for ", q.time);
    std::string s = says(m.points(i).point(), q.point);
    if (!s.empty()) return cat("point ", i, ": ", s);
  }
  return "";
}
inline std::string says(const pc::TCurve_SE3 &m, const TCurve<SE3> &v) { return says_t(m, v); }
inline std::string says(const pc::TCurve_SO3 &m, const TCurve<SO3> &v) { return says_t(m, v); }
inline std::string says(const pa::Trajectory &m, const Trajectory &v) {
  const __int128 ns = static_cast<__int128>(m.start_time().seconds()) * 1000000000 + m.start_time().nanos();
  if (ns != v.start_time().time_since_epoch().count()) return cat("start time ", m.start_time().seconds(), "s ", m.start_time().nanos(), "ns for ", v.start_time().time_since_epoch().count());
  return says(m.curve(), v.curve());
}
inline std::string says(const pv::ViewPrimitive &m, const ViewPrimitive &v) {
  std::string s = says(m.id(), v.id);
  if (!s.empty()) return s;
  if (m.user_defined_name() != v.user_defined_name.value_or("")) return "user defined name field";
  if (m.file_name() != v.file_name) return "file name field";
  if (m.line_number() != v.line_number) return cat("line field ", m.line_number(), " for ", v.line_number);
  switch (v.payload.index()) {
    case 0: return m.has_se3() ? says(m.se3(), std::get<0>(v.payload)) : "wrong payload field";
    case 1: return m.has_so3() ? says(m.so3(), std::get<1>(v.payload)) : "wrong payload field";
    case 2: return m.has_d_curve_se3() ? says(m.d_curve_se3(), std::get<2>(v.payload)) : "wrong payload field";
    case 3: return m.has_t_curve_se3() ? says(m.t_curve_se3(), std::get<3>(v.payload)) : "wrong payload field";
    case 4: return m.has_trajectory() ? says(m.trajectory(), std::get<4>(v.payload)) : "wrong payload field";
    case 5: return m.has_frame() ? says(m.frame(), std::get<5>(v.payload)) : "wrong payload field";
    default: return m.has_framed_vector() ? says(m.framed_vector(), std::get<6>(v.payload)) : "wrong payload field";
  }
}
inline std::string says(const pv::ViewUpdate &m, const ViewUpdate &v) {
  if (m.primitive_size() != static_cast<int>(v.primitives.size())) return cat(m.primitive_size(), " primitives for ", v.primitives.size());
  for (int i = 0; i < m.primitive_size(); ++i) {
    std::string s = says(m.primitive(i), v.primitives[static_cast<size_t>(i)]);
    if (!s.empty()) return cat("primitive ", i, ": ", s);
  }
  return "";
}
}  // namespace vh
