// Many threads reading the same objects, and using independent ones, at once.
#include <atomic>
#include <memory>
#include <mutex>

#include "protos.hh"
#include "resim/math/multivariate_gaussian.hh"
#include "resim/math/safe_integer_utils.hh"
#include "resim/time/event_schedule.hh"
#include "resim/time/sample_interval.hh"
#include "resim/time/timestamp.hh"
#include "resim/actor/state/rigid_body_state.hh"
#include "resim/transforms/se3.hh"
#include "resim/utils/status.hh"
#include "resim/utils/status_value.hh"

using namespace vh;
using resim::Status;

namespace {
// Digest of a result, bit by bit.
struct Digest {
  uint64_t h = 77;
  void d(double x) {
    uint64_t b = 0;
    std::memcpy(&b, &x, sizeof b);
    h = mix64(h ^ b);
  }
  template <typename M>
  void m(const M &v) {
    for (long i = 0; i < v.size(); ++i) d(v(i));
  }
  void s(const std::string &t) { h = mix64(h ^ hash_str(t)); }
  void g(const SE3 &x) {
    m(x.rotation().rotation_matrix());
    m(x.translation());
    s(x.into().id().to_string());
    s(x.from().id().to_string());
  }
  void g(const SO3 &x) {
    m(x.rotation_matrix());
    s(x.into().id().to_string());
    s(x.from().id().to_string());
  }
};

V3 gen_axis(const V3 &x) { return x.norm() > 0 ? V3(x.normalized()) : V3(V3::UnitX()); }
template <typename G>
struct Shared {
  G a, b;
  Frame3 f0, f1, f2;
  typename G::TangentVector alg;
  V3 x;
  TCurve<G> t;
  TwoJetR<G> right;
  resim::actor::state::RigidBodyState<SE3> state;
  FVec v, w;
};
template <typename G>
Shared<G> gen_shared(Rng &r) {
  Shared<G> s;
  s.f0 = Frame3::new_frame();
  s.f1 = Frame3::new_frame();
  s.f2 = Frame3::new_frame();
  s.a = with(gen_group<G>(r), {s.f0, s.f1});
  s.b = with(gen_group<G>(r), {s.f1, s.f2});
  for (int i = 0; i < s.alg.size(); ++i) s.alg(i) = r.normal();
  s.x = gen_trans(r);
  double when = 0;
  for (int i = 0; i < 5; ++i) {
    s.t.append({when, TwoJetL<G>(with(gen_group<G>(r), {s.f0, s.f1}), gen_deriv<G>(r), gen_deriv<G>(r))});
    when += r.uniform(.2, 2);
  }
  s.right = TwoJetR<G>(s.a, gen_deriv<G>(r), gen_deriv<G>(r));
  s.state = resim::actor::state::RigidBodyState<SE3>(TwoJetR<SE3>(with(gen_se3(r), {s.f0, s.f1}), gen_deriv<SE3>(r), gen_deriv<SE3>(r)));
  s.v = FVec(gen_trans(r), s.f0);
  s.w = FVec(gen_trans(r), s.f1);
  return s;
}
template <typename G>
uint64_t use(const Shared<G> &s, int op, double u) {
  Digest d;
  switch (op) {
    case 0: d.g(s.a * s.b); break;
    case 1: d.g(s.a.inverse()); break;
    case 2: d.m(s.a.log()); break;
    case 3: d.m(s.a * s.x); d.m(s.b.rotate(FVec(s.x, s.f2)).vector()); break;
    case 4: d.g(s.a.interp(u)); break;
    case 5: d.m(s.a.adjoint()); break;
    case 6: d.g(G::exp(s.alg)); break;
    case 7:
      if constexpr (std::is_same_v<G, SO3>) d.m(SO3::exp_diff(s.alg));
      else d.m(G::adjoint_times(s.alg, s.a.log()));
      break;
    case 8: {
      const auto p = s.t.point_at(s.t.start_time() + u * (s.t.end_time() - s.t.start_time()));
      d.g(p.frame_from_ref());
      d.m(p.d_frame_from_ref());
      d.m(p.d2_frame_from_ref());
      break;
    }
    case 9: {
      const TCurve<G> copy = s.t;
      d.d(copy.end_time());
      d.g(copy.control_pts().back().point.frame_from_ref());
      break;
    }
    case 10: d.s(s.a.is_approx(s.b.inverse()) ? "y" : "n"); break;
    case 11: d.m((s.t.control_pts()[1].point * TwoJetL<G>(s.b, s.alg, s.alg)).d2_frame_from_ref()); break;
    case 12: d.m(s.t.control_pts()[2].point.inverse().d_frame_from_ref()); break;
    case 13: {
      const auto right = s.t.control_pts()[3].point.right_two_jet();
      d.g(right.ref_from_frame());
      d.m(right.d_ref_from_frame());
      d.m(right.d2_ref_from_frame());
      break;
    }
    case 14: {
      const auto &j = s.right;
      d.m((j * TwoJetR<G>(s.b, s.alg, s.alg)).d2_ref_from_frame());
      d.m(j.inverse().d_ref_from_frame());
      d.m(j.left_two_jet().d2_frame_from_ref());
      d.s(j.is_approx(j) ? "y" : "n");
      break;
    }
    case 15: {
      d.m(s.a.adjoint_times(s.alg));
      if constexpr (std::is_same_v<G, SO3>) {
        d.m(s.a.quaternion().coeffs());
      } else {
        d.d(s.a.arc_length());
        d.d(resim::transforms::se3_distance(s.a, s.a));
      }
      d.s(s.a.is_approx_transform(s.b) ? "y" : "n");
      break;
    }
    case 16: {
      // Refusals carry their own text, whoever else fails meanwhile.
      try {
        d.g(s.b * s.a);
      } catch (const AssertException &e) {
        d.s(e.what());
      }
      try {
        (void)s.t.point_at(s.t.end_time() + 1 + u);
      } catch (const AssertException &e) {
        d.s(e.what());
      }
      break;
    }
    case 17: {
      if constexpr (std::is_same_v<G, SO3>) {
        d.m(s.right.d_ref_from_frame());
        break;
      } else {
      const resim::actor::state::RigidBodyState<SE3> &st = s.state;
      d.m(V3(st.body_linear_velocity_mps()));
      d.m(st.body_angular_acceleration_radpss());
      d.m(st.inverse_times(st).ref_from_body_two_jet().d2_ref_from_frame());
      }
      break;
    }
    case 18: d.g(s.a.interp(u, s.f2)); break;
    case 19: {
      d.m(G::adjoint(s.alg));
      d.g(s.a.interp(u) * s.b);
      d.g(G::identity(s.f0, s.f2));
      const G plain = G::exp(s.alg, s.f1, s.f2);
      d.g(plain);
      d.s(s.a.is_framed() && s.a.verify_frames(s.f0, s.f1) && !s.a.verify_into(s.f2) ? "y" : "n");
      if constexpr (std::is_same_v<G, SO3>) {
        d.g(SO3(u, gen_axis(s.x)));
        d.g(SO3(s.a.quaternion(), s.f0, s.f1));
      } else {
        d.d(resim::transforms::se3_inverse_distance(s.a, s.a));
        d.g(SE3(s.a.rotation()));
        d.g(SE3(s.a.translation()));
        d.g(SE3(s.a.rotation(), s.a.translation()));
        typename G::TangentVector mine = s.alg;
        SE3::tangent_vector_rotation_part(mine) = s.x;
        SE3::tangent_vector_translation_part(mine) = SE3::tangent_vector_rotation_part(s.alg);
        d.m(mine);
      }
      break;
    }
    case 20: {
      const auto &j = s.t.control_pts()[1].point;
      d.s(j.is_approx(s.t.control_pts()[2].point) ? "y" : "n");
      d.s(s.t.is_framed() ? "y" : "n");
      d.s(s.t.reference_frame().id().to_string());
      d.s(s.t.point_frame().id().to_string());
      for (const auto &seg : s.t.segments()) {
        d.d(seg.orig_time);
        d.m(seg.curve.orig().d_frame_from_ref());
        d.m(seg.curve.dest().d2_frame_from_ref());
        d.s(seg.curve.is_framed() ? seg.curve.point_frame().id().to_string() + seg.curve.reference_frame().id().to_string() : "n");
        d.m(seg.curve.point_at(u).d2_frame_from_ref());
      }
      TCurve<G> mine{{0, s.t.control_pts()[0].point}, {1 + u, s.t.control_pts()[1].point}};
      mine.append({{3, s.t.control_pts()[2].point}, {4 + u, s.t.control_pts()[3].point}});
      d.m(mine.point_at(3 + u / 2).d_frame_from_ref());
      d.m(TCurve<G>(s.t.control_pts()).point_at(s.t.end_time()).d_frame_from_ref());
      break;
    }
    case 21: {
      if constexpr (std::is_same_v<G, SO3>) {
        pc::TCurve_SO3 m;
        pack(s.t, &m);
        d.s(differ(s.t, unpack(m)));
        pc::TwoJetL_SO3 l;
        pack(s.t.control_pts()[0].point, &l);
        d.s(differ(s.t.control_pts()[0].point, unpack(l)));
        pc::TwoJetR_SO3 k;
        pack(s.right, &k);
        d.s(differ(s.right, unpack(k)));
        d.s(k.SerializeAsString());
      } else {
        pc::TCurve_SE3 m;
        pack(s.t, &m);
        d.s(differ(s.t, unpack(m)));
        pc::TwoJetL_SE3 l;
        pack(s.t.control_pts()[0].point, &l);
        d.s(differ(s.t.control_pts()[0].point, unpack(l)));
        pc::TwoJetR_SE3 k;
        pack(s.right, &k);
        d.s(differ(s.right, unpack(k)));
        d.s(k.SerializeAsString());
      }
      pt::FramedVector_3 v;
      pack(s.v, &v);
      d.s(differ(s.v, unpack(v)));
      pt::Frame_3 f;
      pack(s.f0, &f);
      d.s(differ(s.f0, unpack(f)));
      break;
    }
    case 22: {
      using State = resim::actor::state::RigidBodyState<SE3>;
      const State &st = s.state;
      const auto all = st.body_derivatives();
      d.m(all.velocity.linear_mps);
      d.m(all.velocity.angular_radps);
      d.m(all.acceleration.linear_mpss);
      d.m(all.acceleration.angular_radpss);
      d.m(V3(st.body_angular_velocity_radps()));
      d.m(V3(st.body_linear_acceleration_mpss()));
      d.g(st.ref_from_body());
      State mine(st.ref_from_body(), all);
      mine.set_body_linear_velocity_mps(s.x);
      mine.set_body_angular_velocity_radps(s.x * u);
      mine.set_body_linear_acceleration_mpss(s.x * 2);
      mine.set_body_angular_acceleration_radpss(s.x * 3);
      d.m(mine.ref_from_body_two_jet().d2_ref_from_frame());
      State pose(st.ref_from_body());
      d.m(pose.ref_from_body_two_jet().d_ref_from_frame());
      d.g((State::identity(s.f2, s.f0) * st).ref_from_body());
      Trajectory tr{{Timestamp{Duration{5}}, st}, {Timestamp{Duration{1000000005}}, mine}};
      tr.append({Timestamp{Duration{3000000000}}, pose});
      d.g(tr.point_at(Duration{1500000000}).ref_from_body());
      d.d(static_cast<double>(tr.time_duration().count()));
      d.s(tr.reference_frame().id().to_string() + tr.body_frame().id().to_string());
      break;
    }
    case 23: {
      const UUID &a = s.f0.id(), &b = s.f1.id();
      d.s(a != b && !(a == b) && !a.is_null() ? "y" : "n");
      d.d(static_cast<double>(std::hash<UUID>()(a) % 1000003));
      d.s(a.to_string());
      pu::UUID m;
      pack(a, &m);
      d.s(differ(a, unpack(m)));
      FVec sum = s.v;
      sum += s.v;
      d.m((sum * u).vector());
      d.s(s.v.isApprox(sum) ? "y" : "n");
      break;
    }
    default: d.s(s.v == s.w ? "y" : "n"); d.m((s.v + s.v).vector()); d.s(s.f0 == s.f1 ? "y" : "n"); break;
  }
  return d.h;
}
struct Others {
  DCurve dc;
  Trajectory tr;
  ViewUpdate up;
  pv::ViewUpdate message;
  pa::Trajectory tr_message;
  std::string wire;
};
uint64_t use(const Others &o, int op, double u) {
  Digest d;
  switch (op) {
    case 0: d.g(o.dc.point_at(u * o.dc.curve_length())); break;
    case 1: {
      const auto span = (o.tr.end_time() - o.tr.start_time()).count();
      const auto p = o.tr.point_at(o.tr.start_time() + Duration{static_cast<int64_t>(u * static_cast<double>(span))});
      d.g(p.ref_from_body());
      d.m(p.ref_from_body_two_jet().d_ref_from_frame());
      break;
    }
    case 2: {
      pv::ViewUpdate m;
      pack(o.up, &m);
      const ViewUpdate back = unpack(m);
      d.s(differ(o.up, back));
      d.s(m.SerializeAsString());
      break;
    }
    case 3: {
      pa::Trajectory m;
      pack(o.tr, &m);
      d.s(m.SerializeAsString());
      d.s(differ(o.tr, unpack(m)));
      break;
    }
    case 4: {
      pc::DCurve_SE3 m;
      pack(o.dc, &m);
      d.s(differ(o.dc, unpack(m)));
      break;
    }
    case 5: {
      const DCurve copy(o.dc);
      d.d(copy.curve_length());
      break;
    }
    case 6: {
      d.s(differ(o.up, unpack(o.message)));
      d.s(differ(o.tr, unpack(o.tr_message)));
      break;
    }
    case 7: {
      pv::ViewUpdate m;
      m.ParseFromString(o.wire);
      d.s(differ(o.up, unpack(m)));
      break;
    }
    case 8: {
      pv::ViewUpdate m = o.message;
      if (m.primitive_size() > 0) m.mutable_primitive(0)->clear_payload();
      try {
        (void)unpack(m);
      } catch (const AssertException &e) {
        d.s(e.what());
      }
      break;
    }
    default:
      for (auto &p : o.up.primitives) {
        const ViewPrimitive q = p;
        d.s(differ(p, q));
      }
      break;
  }
  return d.h;
}
// Objects of a thread's own: instances must not influence each other.
uint64_t own(uint64_t seed, int op) {
  Rng r(seed);
  Digest d;
  switch (op) {
    case 0: {
      Eigen::VectorXd mean(2);
      mean << r.normal(), r.normal();
      Eigen::MatrixXd cov(2, 2);
      cov << 2, .5, .5, 1;
      resim::math::Gaussian g(mean, cov);
      for (int i = 0; i < 4; ++i) d.m(Eigen::MatrixXd(g.sample()));
      d.m(Eigen::MatrixXd(g.samples(5)));
      d.m(g.mu());
      d.m(g.cov());
      d.m(g.eigenvalues());
      d.m(g.eigenvectors());
      d.d(g.dimensionality());
      break;
    }
    case 1: {
      resim::time::EventSchedule<int> s;
      for (int i = 0; i < 30; ++i) s.schedule_event(Timestamp{Duration{r.range(0, 5)}}, i);
      while (s.size() > 0) {
        d.d(s.top_event().payload);
        s.pop_event();
      }
      break;
    }
    case 2: {
      const double a = r.normal(), b = a + r.uniform(0, 3);
      resim::time::sample_interval(a, b, .1, [&](double t) { d.d(t); });
      break;
    }
    case 3: {
      const UUID u = UUID::new_uuid();
      const UUID v(u.to_string());
      d.s(u == v && !u.is_null() ? "y" : "n");
      break;
    }
    case 4: {
      DCurve c;
      Frames f{Frame3::new_frame(), Frame3::new_frame()};
      for (int i = 0; i < 4; ++i) c.append(with(gen_se3(r), f));
      d.d(c.curve_length());
      d.m(c.point_at(.3 * c.curve_length()).translation());
      break;
    }
    case 5: {
      try {
        const TCurve<SE3> t = gen_tcurve<SE3>(r);
        d.m(t.point_at(t.start_time() - 1).d_frame_from_ref());
      } catch (const AssertException &) {
        d.s("refused");
      }
      break;
    }
    case 6: {
      // statuses keep their own text and place
      const int k = static_cast<int>(r() % 2);
      auto f = [&]() -> resim::Status { return k == 0 ? MAKE_STATUS("one") : MAKE_STATUS("two"); };
      auto g = [&]() -> resim::StatusValue<int> {
        RETURN_IF_NOT_OK(f());
        return 1;
      };
      d.s(g().status().what());
      try {
        (void)g().value();
      } catch (const AssertException &e) {
        d.s(e.what());
      }
      break;
    }
    case 7: {
      const Timestamp a{Duration{r.range(-1000, 1000)}};
      resim::time::sample_interval(a, a + Duration{r.range(0, 100000)}, Duration{r.range(900, 9000)}, [&](Timestamp t) { d.d(static_cast<double>(t.time_since_epoch().count())); });
      break;
    }
    case 8: {
      const int64_t n = static_cast<int64_t>(r());
      const auto sn = resim::time::to_seconds_and_nanos(Duration{n});
      d.d(static_cast<double>(resim::time::from_seconds_and_nanos(sn).count() == n));
      d.d(resim::time::as_seconds(Duration{n}));
      const Timestamp at{Duration{n}};
      resim::time::sample_interval(at, at, Duration{1}, [&](Timestamp t) { d.d(static_cast<double>(t.time_since_epoch().count())); });
      resim::time::sample_interval(1., 1., 1., [&](double t) { d.d(t); });
      d.d(static_cast<double>(resim::time::num_samples(0., r.unit() * 100, .5)));
      try {
        d.d(static_cast<double>(resim::math::safe_difference(n, static_cast<int64_t>(r()))));
      } catch (const AssertException &) {
        d.s("refused");
      }
      DCurve c{gen_se3(r), gen_se3(r)};
      c.append({gen_se3(r), gen_se3(r)});
      d.d(c.curve_length());
      break;
    }
    default: {
      pt::SE3 m;
      const SE3 g = gen_se3(r);
      pack(g, &m);
      d.s(differ(g, unpack(m)));
      break;
    }
  }
  return d.h;
}

struct Task {
  int kind, op;
  double u;
  uint64_t seed;
};

void shared_case(Case &c) {
  Rng &r = c.rng;
  const int threads = static_cast<int>(r.range(2, 6));
  const auto se3 = std::make_unique<const Shared<SE3>>(gen_shared<SE3>(r));
  const auto so3 = std::make_unique<const Shared<SO3>>(gen_shared<SO3>(r));
  Others o0;
  for (int i = 0; i < 4; ++i) o0.dc.append(with(gen_se3(r), {se3->f0, se3->f1}));
  o0.tr = Trajectory(se3->t, Timestamp{Duration{r.range(0, 1000000000)}});
  for (int i = 0; i < 3; ++i) o0.up.primitives.push_back(gen_primitive(r));
  pack(o0.up, &o0.message);
  pack(o0.tr, &o0.tr_message);
  o0.wire = o0.message.SerializeAsString();
  const Others &o = o0;
  std::vector<Task> tasks;
  for (int i = 0; i < 40; ++i) {
    const int kind = static_cast<int>(r() % 4);
    tasks.push_back({kind, static_cast<int>(r() % (kind < 2 ? 25 : kind == 2 ? 10 : 10)), r.unit(), r()});
    c.in(static_cast<int64_t>(kind * 100 + tasks.back().op));
    c.in(tasks.back().u);
  }
  auto perform = [&](const Task &t) -> uint64_t {
    switch (t.kind) {
      case 0: return use(*se3, t.op, t.u);
      case 1: return use(*so3, t.op, t.u);
      case 2: return use(o, t.op, t.u);
      default: return own(t.seed, t.op);
    }
  };
  // In half the cases the concurrent run comes first, so that nothing lazily
  // initialised has been touched by a single thread before.
  const bool concurrent_first = r.chance(.5);
  std::vector<uint64_t> alone;
  auto sequential = [&] {
    for (auto &t : tasks) alone.push_back(perform(t));
  };
  if (!concurrent_first) sequential();
  std::vector<std::vector<uint64_t>> got(static_cast<size_t>(threads), std::vector<uint64_t>(tasks.size()));
  std::vector<std::string> errs(static_cast<size_t>(threads));
  std::vector<uint64_t> perm;
  std::atomic<int> ready{0};
  for (int k = 0; k < threads; ++k) perm.push_back(r());
  std::vector<std::thread> pool;
  for (int k = 0; k < threads; ++k)
    pool.emplace_back([&, k] {
      Rng q(perm[static_cast<size_t>(k)]);
      const size_t off = q() % tasks.size();
      ready.fetch_add(1);
      while (ready.load() < threads) std::this_thread::yield();
      try {
        for (size_t i = 0; i < tasks.size(); ++i) {
          const size_t j = (k % 2 == 0 ? i + off : tasks.size() * 2 - 1 - i + off) % tasks.size();
          got[static_cast<size_t>(k)][j] = perform(tasks[j]);
        }
      } catch (const std::exception &e) {
        errs[static_cast<size_t>(k)] = e.what();
      }
    });
  for (auto &t : pool) t.join();
  if (concurrent_first) sequential();
  for (int k = 0; k < threads; ++k) {
    c.check(errs[static_cast<size_t>(k)].empty(), "concurrent-exception", errs[static_cast<size_t>(k)]);
    for (size_t j = 0; j < tasks.size(); ++j)
      c.check_msg(got[static_cast<size_t>(k)][j] == alone[j], "differs", [&] {
        return cat("operation kind ", tasks[j].kind, " op ", tasks[j].op, " gave another result among ", threads, " threads than alone"); });
  }
  c.event("operations", static_cast<double>(tasks.size()) * threads);
  c.event("threads", threads);
  c.describe(cat(threads, " threads x ", tasks.size(), " operations on shared objects", concurrent_first ? ", concurrent run first" : ""));
}
// Ids and frames made at the same time are all different.
void ids(Case &c) {
  Rng &r = c.rng;
  const int threads = static_cast<int>(r.range(2, 8));
  const int64_t per = r.range(20, 200);
  c.in(r());
  std::vector<std::vector<std::string>> out(static_cast<size_t>(threads));
  std::atomic<int> ready{0};
  std::vector<std::thread> pool;
  for (int k = 0; k < threads; ++k)
    pool.emplace_back([&, k] {
      ready.fetch_add(1);
      while (ready.load() < threads) std::this_thread::yield();
      for (int64_t i = 0; i < per; ++i)
        out[static_cast<size_t>(k)].push_back(i % 3 == 0   ? Frame3::new_frame().id().to_string()
                                              : i % 3 == 1 ? resim::transforms::Frame<2>::new_frame().id().to_string()
                                                           : UUID::new_uuid().to_string());
    });
  for (auto &t : pool) t.join();
  std::set<std::string> all;
  for (auto &v : out)
    for (auto &s : v) {
      c.check(all.insert(s).second, "duplicate-id", s);
      c.check(!UUID(s).is_null(), "null-id", s);
    }
  c.event("ids", static_cast<double>(all.size()));
}
}  // namespace

void body(Monitor &m) {
  const bool tsan = m.mode() == "tsan";
  m.section("shared", tsan ? 1600 : 1600, tsan ? 16000 : 24000, shared_case);
  m.section("ids", 400, 4000, ids);
}
VH_MAIN(body)
