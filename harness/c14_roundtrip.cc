// Packing to and unpacking from the wire messages.
#include "protos.hh"
#include "resim/curves/proto/d_curve_to_proto.hh"
#include "resim/curves/proto/t_curve_to_proto.hh"
#include "resim/curves/proto/two_jet_to_proto.hh"
#include "resim/math/proto/matrix_to_proto.hh"
#include "resim/transforms/proto/liegroup_to_proto.hh"

using namespace vh;

namespace {
template <typename Msg, typename T>
void trip(Case &c, const char *kind, const T &v, const T &other) {
  Msg m;
  pack(v, &m);
  std::string s = says(m, v);
  c.check(s.empty(), cat(kind, ":message").c_str(), s);
  if constexpr (std::is_same_v<Msg, pa::Trajectory>)
    c.check(std::abs(m.start_time().nanos()) <= 999999999, cat(kind, ":nanos").c_str(), cat(m.start_time().nanos(), " nanoseconds beside the seconds"));
  const std::string wire = m.SerializeAsString();
  c.in(static_cast<uint64_t>(hash_str(wire)));
  if (wire.empty()) c.trivial();
  // straight back, and through bytes
  const T back = unpack(m);
  s = differ(v, back);
  c.check(s.empty(), cat(kind, ":roundtrip").c_str(), s);
  Msg parsed;
  c.check(parsed.ParseFromString(wire), cat(kind, ":parse").c_str(), "the bytes do not parse");
  s = differ(v, T(unpack(parsed)));
  c.check(s.empty(), cat(kind, ":roundtrip-bytes").c_str(), s);
  c.check(m.SerializeAsString() == wire, cat(kind, ":unpack-mutates").c_str(), "unpacking changed the message");
  // packing into a message that holds something else leaves none of it
  Msg dirty;
  pack(other, &dirty);
  pack(v, &dirty);
  c.check(dirty.SerializeAsString() == wire, cat(kind, ":residue").c_str(), "a reused message keeps parts of its previous content");
  c.must_throw<AssertException>(cat(kind, ":null").c_str(), [&] { pack(v, static_cast<Msg *>(nullptr)); }, "packing into a null message");
  c.event(kind);
  c.event("bytes", static_cast<double>(wire.size()));
}
template <typename Msg, typename F>
void sec(Monitor &m, const char *kind, int64_t q, int64_t d, F gen) {
  m.section(kind, q, d, [&](Case &c) {
    const auto a = gen(c.rng);
    const auto b = gen(c.rng);
    trip<Msg>(c, kind, a, b);
  });
}
template <typename G, template <typename> class J>
J<G> gj(Rng &r) {
  return J<G>(with(gen_group<G>(r), gen_frames(r)), gen_deriv<G>(r), gen_deriv<G>(r));
}
template <typename M>
void matrix(Case &c, M v) {
  for (long i = 0; i < v.size(); ++i) v(i) = c.rng.chance(.1) ? c.rng.pick<double>({0.0, -0.0, 1e308, 5e-324, HUGE_VAL}) : c.rng.normal();
  for (long i = 0; i < v.size(); ++i) c.in(double(v(i)));
  google::protobuf::RepeatedField<double> f;
  for (int64_t i = c.rng.range(0, 40); i > 0; --i) f.Add(i);
  resim::math::proto::pack_matrix(v, &f);
  c.check(f.size() == v.size(), "matrix:size", cat(f.size(), " elements for ", v.size()));
  for (long j = 0; j < v.cols(); ++j)
    for (long i = 0; i < v.rows(); ++i)
      c.check(f.Get(static_cast<int>(j * v.rows() + i)) == v(i, j), "matrix:order", "elements are not in column order");
  M back(v.rows(), v.cols());
  back.setConstant(7);
  resim::math::proto::unpack_matrix(f, resim::InOut(back));
  c.check(back == v, "matrix:roundtrip", "matrix changed in the round trip");
  if (c.rng.chance(.5) || f.size() == 0)
    f.Add(1);
  else
    f.RemoveLast();
  c.must_throw<AssertException>("matrix:count", [&] { resim::math::proto::unpack_matrix(f, resim::InOut(back)); }, "a message with the wrong number of elements");
  c.event("matrix");
}
}  // namespace

void body(Monitor &m) {
  sec<pu::UUID>(m, "uuid", 1000, 20000, gen_uuid);
  sec<pt::Frame_3>(m, "frame", 1000, 20000, [](Rng &r) { return Frame3(gen_uuid(r)); });
  sec<pt::SE3>(m, "se3", 4000, 200000, [](Rng &r) { return with(gen_wire_group<SE3>(r), gen_frames(r)); });
  sec<pt::SO3>(m, "so3", 4000, 200000, [](Rng &r) { return with(gen_wire_group<SO3>(r), gen_frames(r)); });
  sec<pt::FramedVector_3>(m, "framed-vector", 2000, 50000, [](Rng &r) { return gen_fvec(r); });
  sec<pc::TwoJetL_SE3>(m, "two-jetl-se3", 2000, 80000, gj<SE3, TwoJetL>);
  sec<pc::TwoJetL_SO3>(m, "two-jetl-so3", 2000, 80000, gj<SO3, TwoJetL>);
  sec<pc::TwoJetR_SE3>(m, "two-jetr-se3", 2000, 80000, gj<SE3, TwoJetR>);
  sec<pc::TwoJetR_SO3>(m, "two-jetr-so3", 2000, 80000, gj<SO3, TwoJetR>);
  sec<pc::DCurve_SE3>(m, "d-curve", 1500, 60000, gen_dcurve);
  sec<pc::TCurve_SE3>(m, "t-curve-se3", 1200, 50000, [](Rng &r) { return gen_tcurve<SE3>(r); });
  sec<pc::TCurve_SO3>(m, "t-curve-so3", 1200, 50000, [](Rng &r) { return gen_tcurve<SO3>(r); });
  sec<pa::Trajectory>(m, "trajectory", 1500, 60000, gen_trajectory);
  sec<pv::ViewPrimitive>(m, "view-primitive", 3000, 120000, [](Rng &r) { return gen_primitive(r); });
  sec<pv::ViewUpdate>(m, "view-update", 400, 10000, [](Rng &r) {
    ViewUpdate u;
    for (int64_t i = r.chance(.03) ? r.range(50, 400) : r.range(0, 12); i > 0; --i) u.primitives.push_back(gen_primitive(r));
    return u;
  });
  // Decoding into an object that already holds something replaces all of it.
  m.section("reused-object", 2000, 60000, [](Case &c) {
    Rng &r = c.rng;
    c.describe("decode into objects in use");
    auto same = [&](const char *key, const std::string &d) {
      c.check(d.empty(), key, d);
      c.event("reused_objects");
    };
    {
      const auto a = gen_tcurve<SE3>(r);
      auto into = gen_tcurve<SE3>(r);
      pc::TCurve_SE3 m;
      pack(a, &m);
      c.in(static_cast<uint64_t>(hash_str(m.SerializeAsString())));
      pc::unpack_t_curve(m, resim::InOut(into));
      same("reused:t-curve-se3", differ(a, into));
    }
    {
      const auto a = gen_tcurve<SO3>(r);
      auto into = gen_tcurve<SO3>(r);
      pc::TCurve_SO3 m;
      pack(a, &m);
      pc::unpack_t_curve(m, resim::InOut(into));
      same("reused:t-curve-so3", differ(a, into));
    }
    {
      const auto a = gen_dcurve(r);
      auto into = gen_dcurve(r);
      pc::DCurve_SE3 m;
      pack(a, &m);
      pc::unpack_d_curve(m, resim::InOut(into));
      same("reused:d-curve", differ(a, into));
    }
    {
      const SE3 a = with(gen_wire_group<SE3>(r), gen_frames(r));
      SE3 into = with(gen_wire_group<SE3>(r), gen_frames(r));
      pt::SE3 m;
      pack(a, &m);
      pt::unpack_liegroup(m, resim::InOut(into));
      same("reused:se3", differ(a, into));
    }
    {
      const SO3 a = with(gen_wire_group<SO3>(r), gen_frames(r));
      SO3 into = with(gen_wire_group<SO3>(r), gen_frames(r));
      pt::SO3 m;
      pack(a, &m);
      pt::unpack_liegroup(m, resim::InOut(into));
      same("reused:so3", differ(a, into));
    }
    {
      const auto a = gj<SE3, TwoJetL>(r);
      auto into = gj<SE3, TwoJetL>(r);
      pc::TwoJetL_SE3 m;
      pack(a, &m);
      pc::unpack_two_jetl(m, resim::InOut(into));
      same("reused:two-jetl", differ(a, into));
    }
    {
      const auto a = gj<SO3, TwoJetR>(r);
      auto into = gj<SO3, TwoJetR>(r);
      pc::TwoJetR_SO3 m;
      pack(a, &m);
      pc::unpack_two_jetr(m, resim::InOut(into));
      same("reused:two-jetr", differ(a, into));
    }
  });
  m.section("matrix", 3000, 50000, [](Case &c) {
    switch (c.rng() % 10) {
      case 5: {
        const int64_t n = c.rng.range(1, 24);
        return matrix(c, Eigen::MatrixXd(n, n));
      }
      case 6: return matrix(c, Eigen::MatrixXd(c.rng.range(1, 40), c.rng.range(1, 40)));
      case 7: return matrix(c, Eigen::Matrix<double, 6, 6>());
      case 8: return matrix(c, Eigen::VectorXd(c.rng.range(1, 400)));
      case 9: return matrix(c, Eigen::Matrix<double, 9, 9, Eigen::RowMajor>());
      case 0: return matrix(c, Eigen::Matrix3d());
      case 1: return matrix(c, Eigen::Matrix<double, 2, 5>());
      case 2: return matrix(c, Eigen::Matrix<double, 4, 2, Eigen::RowMajor>());
      case 3: return matrix(c, Eigen::MatrixXd(c.rng.range(0, 5), c.rng.range(1, 5)));
      default: return matrix(c, Eigen::VectorXd(c.rng.range(1, 9)));
    }
  });
}
VH_MAIN(body)
