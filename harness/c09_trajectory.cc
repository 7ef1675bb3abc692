// Trajectories and rigid-body states.
#include "ints.hh"
#include "jets.hh"
#include "resim/actor/state/rigid_body_state.hh"
#include "resim/actor/state/trajectory.hh"
#include "resim/assert/assert.hh"

using namespace vh;
using resim::AssertException;
using State = resim::actor::state::RigidBodyState<SE3>;
using resim::actor::state::Trajectory;
using resim::time::Duration;
using resim::time::Timestamp;

namespace {
void chk(Case &c, const char *key, LD err, LD tol, const std::string &what) {
  c.event("max_error_over_tol", static_cast<double>(err / tol));
  c.check_msg(err <= tol, key, [&] { return cat(what, ": deviates by ", static_cast<double>(err), " (limit ", static_cast<double>(tol), ")"); });
}
Timestamp ts(int64_t n) { return Timestamp{Duration{n}}; }
State gen_state(Rng &r, const Frame3 &ref, const Frame3 &body) {
  SE3 g = SE3(gen_so3(r), V3(gen_unit(r) * r.uniform(0, 30)));
  if (!ref.is_null()) g.set_frames(ref, body);
  State::StateDerivatives d;
  // Any part may vanish, or have one direction only.
  const bool sparse = r.chance(.4);
  auto v = [&] {
    V3 x(r.uniform(-2, 2), r.uniform(-2, 2), r.uniform(-2, 2));
    if (sparse && r.chance(.5)) x *= 0;
    if (sparse && r.chance(.3)) x = V3::Unit(static_cast<int>(r() % 3)) * x[0];
    return x;
  };
  d.velocity.linear_mps = v();
  d.velocity.angular_radps = v();
  d.acceleration.linear_mpss = v();
  d.acceleration.angular_radpss = v();
  return State(g, d);
}
LD sdiff(const State &a, const State &b) {
  return std::max({maxdiff(mat(a.ref_from_body()), mat(b.ref_from_body())), maxdiff(V3(a.body_linear_velocity_mps()), V3(b.body_linear_velocity_mps())),
                   maxdiff(V3(a.body_angular_velocity_radps()), V3(b.body_angular_velocity_radps())),
                   maxdiff(V3(a.body_linear_acceleration_mpss()), V3(b.body_linear_acceleration_mpss())),
                   maxdiff(V3(a.body_angular_acceleration_radpss()), V3(b.body_angular_acceleration_radpss()))});
}
int64_t gen_start(Rng &r) {
  switch (r() % 4) {
    case 0: return 0;
    case 1: return 1690000000000000000LL + r.range(0, 1000000000);
    case 2: return -r.range(0, 4000000000000000000LL);
    default: return r.range(-1000000000000LL, 1000000000000LL);
  }
}
int64_t gen_gap(Rng &r) {
  switch (r() % 5) {
    case 0: return r.range(100000000, 10000000000LL);
    case 1: return r.range(1, 30) * 100000000;
    case 2: return r.range(1000000000, 3600000000000LL);
    default: return r.range(500000000, 3000000000LL);
  }
}
}  // namespace

void body(Monitor &m) {
  m.section("controls", 2500, 80000, [](Case &c) {
    Rng &r = c.rng;
    const bool framed = r.chance(.7);
    const Frame3 ref = framed ? Frame3::new_frame() : Frame3(), bod = framed ? Frame3::new_frame() : Frame3();
    const int n = static_cast<int>(r.range(2, 8));
    int64_t t = gen_start(r);
    const int64_t start = t;
    Trajectory tr;
    std::vector<std::pair<int64_t, State>> pts;
    for (int i = 0; i < n; ++i) {
      State s = gen_state(r, ref, bod);
      pts.emplace_back(t, s);
      c.in(t);
      feed(c, s.ref_from_body());
      t += gen_gap(r);
    }
    // Bound each step below half a turn so the path is unambiguous: reuse the
    // first pose with a moderate offset.
    for (int i = 1; i < n; ++i) {
      const M4l g = mat(pts[i - 1].second.ref_from_body()) * exp6([&] {
                      V6 a;
                      a.head<3>() = gen_unit(r) * r.uniform(0, 2.5);
                      a.tail<3>() = gen_unit(r) * r.uniform(0, 8);
                      return V6l(a.cast<LD>());
                    }());
      SE3 q(SO3(M3(g.block<3, 3>(0, 0).cast<double>())), V3(g.block<3, 1>(0, 3).cast<double>()));
      if (framed) q.set_frames(ref, bod);
      pts[i].second.set_ref_from_body(q);
    }
    c.describe(cat(n, " states from ", start, "ns over ", pts.back().first - start, "ns", framed ? ", framed" : ""));
    if (r.chance(.3) && n >= 2) {
      tr = Trajectory{{ts(pts[0].first), pts[0].second}, {ts(pts[1].first), pts[1].second}};
      for (int i = 2; i < n; ++i) tr.append({ts(pts[i].first), pts[i].second});
    } else if (r.chance(.3)) {
      tr.append({ts(pts[0].first), pts[0].second});
      tr.append({{ts(pts[1].first), pts[1].second}});
      for (int i = 2; i < n; ++i) tr.append({ts(pts[i].first), pts[i].second});
    } else {
      for (int i = 0; i < n; ++i) tr.append({ts(pts[i].first), pts[i].second});
    }
    const std::string s = cat(n, " states from ", start);
    c.check(tr.start_time() == ts(start), "start-time", s);
    const int64_t last = pts.back().first;
    const int64_t end = tr.end_time().time_since_epoch().count();
    c.check_msg(end <= last && end >= last - 1, "end-time", [&] { return cat(s, " ends at ", end, " but last state is at ", last); });
    c.check_msg(tr.time_duration().count() == end - start, "duration", [&] { return cat(s, " duration ", tr.time_duration().count()); });
    tr.point_at(tr.end_time());
    c.check(tr.reference_frame() == ref && tr.body_frame() == bod, "trajectory-frames", s);
    for (int i = 0; i < n; ++i) {
      const State got = tr.point_at(ts(pts[i].first));
      // Derivatives of a long segment amplify rounding by its duration squared.
      const LD dt = static_cast<LD>(i == 0 ? pts[1].first - pts[0].first : pts[i].first - pts[i - 1].first) * 1e-9L;
      const LD tol = 1e-10L * (40 + dt * dt * dt);
      chk(c, "state-at-control", sdiff(got, pts[i].second), tol, cat(s, " state ", i));
      c.check(got.ref_from_body().into() == ref && got.ref_from_body().from() == bod, "state-frames", s);
      const State got2 = tr.point_at(Duration{pts[i].first - start});
      chk(c, "state-at-offset", sdiff(got2, got), 1e-6L * tol, cat(s, " state ", i));
      c.event("states_visited");
    }
    // Inside: same time by timestamp and by offset, and poses consistent with
    // the reported body velocity.
    for (int q = 0; q < 5; ++q) {
      const size_t i = static_cast<size_t>(r() % (n - 1));
      const int64_t gap = pts[i + 1].first - pts[i].first;
      if (gap > 20000000000LL) continue;
      const int64_t h = std::max<int64_t>(1, gap / 20000);
      const int64_t at = pts[i].first + r.range(2 * h, gap - 2 * h);
      const State a = tr.point_at(ts(at - h)), b = tr.point_at(ts(at + h)), mid = tr.point_at(ts(at));
      const double hs = static_cast<double>(h) * 1e-9, dt = static_cast<double>(gap) * 1e-9;
      const V6 fd = (a.ref_from_body().inverse() * b.ref_from_body()).log() / (2 * hs);
      V6 want;
      want.head<3>() = mid.body_angular_velocity_radps();
      want.tail<3>() = mid.body_linear_velocity_mps();
      V6 acc, va, vb;
      acc.head<3>() = mid.body_angular_acceleration_radpss();
      acc.tail<3>() = mid.body_linear_acceleration_mpss();
      va.head<3>() = a.body_angular_velocity_radps();
      va.tail<3>() = a.body_linear_velocity_mps();
      vb.head<3>() = b.body_angular_velocity_radps();
      vb.tail<3>() = b.body_linear_velocity_mps();
      const LD big = (1 + want.norm() + acc.norm() * dt) * (1 + want.norm() * dt) * (1 + 1 / dt) * (1 + 1 / dt) * 10;
      chk(c, "body-velocity", maxdiff(fd, want), 1e-5L * big, cat(s, " at ", at));
      chk(c, "body-acceleration", maxdiff(((vb - va) / (2 * hs)).eval(), acc), 1e-4L * big * (1 + want.norm() * dt), cat(s, " at ", at));
      const State off = tr.point_at(Duration{at - start});
      chk(c, "offset-vs-timestamp", sdiff(off, mid), 1e-12L * (40 + want.norm() + acc.norm()), cat(s, " at ", at));
      c.event("motion_samples");
    }
    // Out of range, by timestamp and by offset.
    for (int64_t d : {int64_t{1}, int64_t{1000}, int64_t{1000000000}, r.range(1, 1000000000000LL)}) {
      c.must_throw<AssertException>("query-before", [&] { tr.point_at(ts(start - d)); }, cat(d, "ns early"));
      c.must_throw<AssertException>("query-after", [&] { tr.point_at(ts(last + d)); }, cat(d, "ns late"));
      c.must_throw<AssertException>("query-before", [&] { tr.point_at(Duration{-d}); }, cat(d, "ns early"));
      c.must_throw<AssertException>("query-after", [&] { tr.point_at(Duration{last - start + d}); }, cat(d, "ns late"));
    }
    // Refused appends leave the trajectory as it was.
    auto refused = [&](const char *key, int64_t at, const State &st, const char *what) {
      c.must_throw<AssertException>(key, [&] { tr.append({ts(at), st}); }, what);
      c.check(tr.curve().control_pts().size() == static_cast<size_t>(n) && tr.start_time() == ts(start) && tr.end_time().time_since_epoch().count() == end, "append-effect", what);
    };
    refused("append-order", last, pts.back().second, "same timestamp again");
    refused("append-order", last - 1, pts.back().second, "earlier timestamp");
    refused("append-order", start - r.range(0, 1000000000), pts.back().second, "before the start");
    State other = pts.back().second;
    SE3 g = other.ref_from_body();
    g.set_frames(framed ? ref : Frame3::new_frame(), Frame3::new_frame());
    other.set_ref_from_body(g);
    refused("append-body-frame", last + 1000000000, other, "another body frame");
    g.set_frames(Frame3::new_frame(), framed ? bod : Frame3::new_frame());
    other.set_ref_from_body(g);
    refused("append-ref-frame", last + 1000000000, other, "another reference frame");
    if (framed) {
      g.set_unframed();
      other.set_ref_from_body(g);
      refused("append-unframed", last + 1000000000, other, "unframed state");
    }
    tr.append({ts(last + 1000000000), pts.back().second});
    chk(c, "append-after-refusal", sdiff(tr.point_at(ts(last + 1000000000)), pts.back().second), 1e-8, s);
  });
  m.section("from-curve", 1000, 20000, [](Case &c) {
    Rng &r = c.rng;
    const Frame3 ref = Frame3::new_frame(), bod = Frame3::new_frame();
    resim::curves::TCurve<SE3> k;
    double t = 0;
    const int n = static_cast<int>(r.range(2, 6));
    for (int i = 0; i < n; ++i) {
      k.append({t, gen_state(r, ref, bod).ref_from_body_two_jet().left_two_jet()});
      t += static_cast<double>(r.range(1, 30)) / 8;
    }
    const int64_t start = gen_start(r);
    c.in(start);
    c.in(t);
    c.describe(cat("trajectory from a curve of ", n, " points at ", start));
    const Trajectory tr(k, ts(start));
    c.check(tr.start_time() == ts(start) && tr.reference_frame() == ref && tr.body_frame() == bod, "from-curve", "start or frames");
    c.check(std::llabs(tr.time_duration().count() - std::llround(k.end_time() * 1e9)) <= 1, "from-curve-duration", "duration");
    for (int q = 0; q < 5; ++q) {
      const int64_t ns = r.range(0, tr.time_duration().count());
      const auto p = k.point_at(static_cast<double>(static_cast<LD>(ns) / 1e9L));
      const Jet want = inv(jet(p)), got = jet(tr.point_at(ts(start + ns)).ref_from_body_two_jet());
      chk(c, "from-curve-point", jdiff(got, want), 1e-11L * jscale(want) * jscale(want) * jscale(want), cat("at ", ns));
      c.event("curve_points");
    }
  });
  // States given as a list or one by one make the same trajectory, and a bad one is refused wherever it stands.
  m.section("lists", 1500, 20000, [](Case &c) {
    Rng &r = c.rng;
    const int n = static_cast<int>(r.range(2, 10));
    const bool framed = r.chance(.5);
    const Frame3 ref = framed ? Frame3::new_frame() : Frame3(), bod = framed ? Frame3::new_frame() : Frame3();
    std::vector<Trajectory::Control> v;
    int64_t t = gen_start(r);
    c.in(t);
    const State base = gen_state(r, ref, bod);
    feed(c, base.ref_from_body());
    for (int i = 0; i < n; ++i) {
      State s = base;
      s.set_ref_from_body(SE3(base.ref_from_body().rotation(), V3(base.ref_from_body().translation() + V3(i, 0, 0))));
      if (framed) {
        SE3 g = s.ref_from_body();
        g.set_frames(ref, bod);
        s.set_ref_from_body(g);
      }
      v.push_back({ts(t), s});
      t += r.range(1, 30) * 100000000;
    }
    const Trajectory k = [&] { Trajectory x; for (const auto &q : v) x.append(q); return x; }();
    const bool spoil = r.chance(.5);
    if (spoil) {
      const size_t at = 1 + static_cast<size_t>(r() % static_cast<uint64_t>(n - 1));
      switch (r() % 5) {
        case 0: v[at].at_time = v[at - 1].at_time; break;
        case 1: v[at].at_time = v[0].at_time; break;
        case 2: v[at].at_time = v[at - 1].at_time - Duration{r.range(1, 5000000000LL)}; break;
        case 3: {
          SE3 g = v[at].state.ref_from_body();
          g.set_frames(framed ? ref : Frame3::new_frame(), Frame3::new_frame());
          v[at].state.set_ref_from_body(g);
          break;
        }
        default: {
          SE3 g = v[at].state.ref_from_body();
          g.set_frames(Frame3::new_frame(), framed ? bod : Frame3::new_frame());
          v[at].state.set_ref_from_body(g);
          break;
        }
      }
    }
    c.describe(cat("lists of ", n, " states", spoil ? ", one of them bad" : ""));
    const size_t split = static_cast<size_t>(r() % static_cast<uint64_t>(n));
    auto attempt = [&](const char *how, auto make) {
      if (spoil) {
        c.must_throw<AssertException>("list-rejects", [&] { make(); }, how);
        c.event("rejections_observed");
        return;
      }
      const Trajectory x = make();
      c.check(x.curve().control_pts().size() == v.size() && x.start_time() == k.start_time() && x.end_time() == k.end_time() && x.time_duration() == k.time_duration(), "list-extent", cat(how, " of ", n, " states"));
      for (const auto &q : v) chk(c, "list-state", sdiff(x.point_at(q.at_time), k.point_at(q.at_time)), 1e-7L, cat(how, " of ", n, " states"));
      c.event("lists");
    };
    with_list(v, [&](std::initializer_list<Trajectory::Control> l) {
      attempt("list", [&] { return Trajectory(l); });
      attempt("appended list", [&] { Trajectory x; x.append(l); return x; });
    });
    with_list(std::vector<Trajectory::Control>(v.begin() + static_cast<long>(split), v.end()), [&](std::initializer_list<Trajectory::Control> l) {
      attempt("appended tail", [&] { Trajectory x; for (size_t i = 0; i < split; ++i) x.append(v[i]); x.append(l); return x; });
    });
  });
  // Instants anywhere on the time axis: those before the start or after the end are refused.
  m.section("extremes", 1500, 40000, [](Case &c) {
    Rng &r = c.rng;
    constexpr int64_t LO = std::numeric_limits<int64_t>::min(), HI = std::numeric_limits<int64_t>::max();
    auto instant = [&]() -> int64_t {
      switch (r() % 6) {
        case 0: return LO + r.range(0, r.chance(.5) ? 3 : 4000000000LL);
        case 1: return HI - r.range(0, r.chance(.5) ? 3 : 4000000000LL);
        case 2: return r.range(-2, 2);
        case 3: return r.range(-4000000000LL, 4000000000LL);
        default: return static_cast<int64_t>(r());
      }
    };
    int64_t start = instant();
    const int64_t span = r.range(1, 40) * 100000000LL;
    if (start > HI - 2 * span) start = HI - 2 * span - r.range(0, 2);
    const State s0 = gen_state(r, Frame3(), Frame3());
    State s1 = s0;
    s1.set_ref_from_body(s0.ref_from_body() * SE3(SO3(r.uniform(-1, 1), gen_unit(r)), V3(gen_unit(r))));
    Trajectory tr;
    tr.append({ts(start), s0});
    c.in(start);
    c.in(span);
    c.describe(cat("from ", start, " for ", span, "ns"));
    for (int i = 0; i < 4; ++i) {
      const int64_t t = instant();
      c.in(t);
      if (t <= start) {
        c.must_throw<AssertException>("append-extreme", [&] { tr.append({ts(t), s1}); }, cat("state at ", t, " after one at ", start));
        c.check(tr.curve().control_pts().size() == 1 && tr.start_time() == ts(start), "append-extreme-effect", cat("a refused state at ", t));
        c.event("rejections_observed");
      }
    }
    tr.append({ts(start + span), s1});
    for (int i = 0; i < 6; ++i) {
      const int64_t t = instant();
      c.in(t);
      if (t < start || static_cast<__int128>(t) > static_cast<__int128>(start) + span) {
        c.must_throw<AssertException>("query-extreme", [&] { tr.point_at(ts(t)); }, cat("query at ", t, " of [", start, ", ", start + span, "]"));
        c.event("extreme_queries");
      }
      const int64_t d = t;
      if (d < 0 || d > span) c.must_throw<AssertException>("query-extreme-offset", [&] { tr.point_at(Duration{d}); }, cat("query at offset ", d, " of ", span));
    }
    chk(c, "extreme-end", sdiff(tr.point_at(ts(start + span)), s1), 1e-7L, cat("state at the end, ", start + span));
    chk(c, "extreme-start", sdiff(tr.point_at(ts(start)), s0), 1e-7L, cat("state at the start, ", start));
    const int64_t e = tr.end_time().time_since_epoch().count();
    c.check(e <= start + span && e >= start + span - 1, "extreme-end-time", cat("ends at ", e, " instead of ", start + span));
  });
  m.section("empty", 200, 1000, [](Case &c) {
    Trajectory e;
    c.in(c.index);
    c.describe("empty trajectory");
    const int64_t t = edge_i64(c.rng) / 4;
    c.must_throw<AssertException>("empty", [&] { e.point_at(ts(t)); });
    c.must_throw<AssertException>("empty", [&] { e.point_at(Duration{t}); });
    c.must_throw<AssertException>("empty", [&] { e.reference_frame(); });
    c.must_throw<AssertException>("empty", [&] { e.body_frame(); });
    c.must_throw<AssertException>("empty", [&] { e.end_time(); });
    c.must_throw<AssertException>("empty", [&] { e.time_duration(); });
    const State s = gen_state(c.rng, Frame3::new_frame(), Frame3::new_frame());
    e.append({ts(t), s});
    c.check(e.start_time() == ts(t) && e.time_duration().count() == 0 && e.end_time() == ts(t), "single", "single state");
    c.must_throw<AssertException>("single", [&] { e.point_at(ts(t)); });
    State again = c.rng.chance(.5) ? s : State(s.ref_from_body());
    c.must_throw<AssertException>("single-order", [&] { e.append({ts(t), again}); }, "the only timestamp again");
    c.must_throw<AssertException>("single-order", [&] { e.append({ts(t - c.rng.range(1, 2000000000)), again}); }, "before the only timestamp");
    c.check(e.curve().control_pts().size() == 1 && e.start_time() == ts(t) && e.end_time() == ts(t), "single-effect", "a refused state changed the trajectory");
    const int64_t gap = c.rng.range(1000000, 3000000000LL);
    e.append({ts(t + gap), s});
    chk(c, "single-then", sdiff(e.point_at(ts(t)), s), 1e-8, "first state");
    c.check(e.curve().control_pts().size() == 2, "single-then", "two states");
  });
  // Close instants: control points a few nanoseconds to milliseconds apart.
  m.section("fine", 1500, 40000, [](Case &c) {
    Rng &r = c.rng;
    const Frame3 ref = Frame3::new_frame(), bod = Frame3::new_frame();
    const int n = static_cast<int>(r.range(2, 6));
    int64_t t = gen_start(r);
    const int64_t start = t;
    V6 v;
    v.head<3>() = gen_unit(r) * r.uniform(0, 2);
    v.tail<3>() = gen_unit(r) * r.uniform(0, 5);
    const M4l g0 = mat(SE3(gen_so3(r), V3(gen_unit(r) * r.uniform(0, 3))));
    Trajectory tr;
    std::vector<int64_t> at;
    auto pose = [&](int64_t x) { return M4l(g0 * exp6(v.cast<LD>() * (static_cast<LD>(x - start) * 1e-9L))); };
    for (int i = 0; i < n; ++i) {
      const M4l g = pose(t);
      SE3 q(SO3(M3(g.block<3, 3>(0, 0).cast<double>())), V3(g.block<3, 1>(0, 3).cast<double>()), ref, bod);
      State::StateDerivatives d;
      d.velocity.angular_radps = v.head<3>();
      d.velocity.linear_mps = v.tail<3>();
      tr.append({ts(t), State(q, d)});
      at.push_back(t);
      c.in(t);
      t += r.chance(.4) ? r.range(1, 20) : r.chance(.5) ? r.range(20, 5000) : r.range(5000, 2000000);
    }
    feed(c, v);
    c.describe(cat(n, " states within ", at.back() - start, "ns"));
    const int64_t last = at.back();
    for (int q = 0; q < 12; ++q) {
      const int64_t x = q < n ? at[static_cast<size_t>(q)] : r.range(start, last);
      const State st = tr.point_at(ts(x));
      chk(c, "fine-pose", maxdiff(mat(st.ref_from_body()), pose(x)), 1e-10, cat("at +", x - start));
      chk(c, "fine-offset", maxdiff(mat(tr.point_at(Duration{x - start}).ref_from_body()), pose(x)), 1e-10, cat("at +", x - start));
      c.check(st.ref_from_body().into() == ref && st.ref_from_body().from() == bod, "state-frames", "fine");
      c.event("fine_samples");
    }
    c.must_throw<AssertException>("fine-range", [&] { tr.point_at(ts(start - 1)); }, "1ns early");
    c.must_throw<AssertException>("fine-range", [&] { tr.point_at(ts(last + 1)); }, "1ns late");
    const int64_t end = tr.end_time().time_since_epoch().count();
    c.check_msg(end <= last && end >= last - 1, "fine-end", [&] { return cat("ends at +", end - start, " but last state is at +", last - start); });
    c.must_throw<AssertException>("fine-order", [&] { tr.append({ts(last), tr.point_at(ts(last))}); }, "same instant again");
  });
  // Long trajectories, copies, queries in any order while growing.
  m.section("history", 800, 20000, [](Case &c) {
    Rng &r = c.rng;
    const Frame3 ref = Frame3::new_frame(), bod = Frame3::new_frame();
    const int n = static_cast<int>(r.chance(.25) ? r.range(40, 300) : r.range(3, 14));
    std::vector<Trajectory::Control> pts;
    int64_t t = gen_start(r);
    SE3 pose(gen_so3(r), V3(gen_unit(r) * 3), ref, bod);
    for (int i = 0; i < n; ++i) {
      State st = gen_state(r, ref, bod);
      st.set_ref_from_body(pose);
      pts.push_back({ts(t), st});
      c.in(t);
      feed(c, pose);
      const M4l g = mat(pose) * exp6((V6() << gen_unit(r) * r.uniform(0, 2.5), gen_unit(r) * r.uniform(0, 8)).finished().cast<LD>());
      pose = SE3(SO3(M3(g.block<3, 3>(0, 0).cast<double>())), V3(g.block<3, 1>(0, 3).cast<double>()), ref, bod);
      t += r.range(300000000, 3000000000LL);
    }
    c.describe(cat(n, " states, queried in random order while growing and through copies"));
    Trajectory tr, grown;
    for (const auto &p : pts) tr.append(p);
    Trajectory copy(tr), tmp(tr), moved(std::move(tmp));
    size_t have = 0;
    for (int q = 0; q < 16; ++q) {
      const size_t upto = q == 15 ? pts.size() : std::min<size_t>(pts.size(), have + static_cast<size_t>(r.range(0, 1 + n / 10)));
      for (; have < upto; ++have) grown.append(pts[have]);
      const size_t i = static_cast<size_t>(r() % (pts.size() - 1));
      const int64_t a = pts[i].at_time.time_since_epoch().count(), b = pts[i + 1].at_time.time_since_epoch().count();
      const Timestamp at = ts(r.chance(.3) ? a : r.range(a, b));
      const State want = Trajectory{pts[i], pts[i + 1]}.point_at(at);
      const LD tol = 1e-6L;  // times since the start round differently
      chk(c, "history-query", sdiff(tr.point_at(at), want), tol, cat("segment ", i, " of ", n));
      chk(c, "history-copy", sdiff(copy.point_at(at), tr.point_at(at)), 1e-11L, cat("segment ", i, " of ", n));
      chk(c, "history-move", sdiff(moved.point_at(at), tr.point_at(at)), 1e-11L, cat("segment ", i, " of ", n));
      if (have >= 2 && i + 1 < have) chk(c, "history-grown", sdiff(grown.point_at(at), tr.point_at(at)), 1e-11L, cat("segment ", i, " of ", n));
      c.event("history_queries");
    }
    const Timestamp end = tr.end_time();
    Trajectory::Control extra = pts.back();
    extra.at_time += Duration{1000000000};
    copy.append(extra);
    c.check(tr.end_time() == end && tr.curve().control_pts().size() == pts.size() && copy.end_time() > end, "history-independent", "appending to a copy changed the original");
    c.must_throw<AssertException>("history-independent", [&] { tr.point_at(extra.at_time); });
  });
  // Each setter changes its own part to the given value, whatever the others are, in any order.
  m.section("setters", 3000, 60000, [](Case &c) {
    Rng &r = c.rng;
    const bool framed = r.chance(.5);
    const Frame3 A = framed ? Frame3::new_frame() : Frame3(), B = framed ? Frame3::new_frame() : Frame3();
    State s = r.chance(.3) ? State(gen_state(r, A, B).ref_from_body()) : gen_state(r, A, B);
    SE3 pose = s.ref_from_body();
    V3 part[4] = {s.body_linear_velocity_mps(), s.body_angular_velocity_radps(), s.body_linear_acceleration_mpss(), s.body_angular_acceleration_radpss()};
    feed(c, pose);
    c.describe(cat("setters of ", framed ? "a framed" : "an unframed", " state"));
    const int64_t n = r.range(1, 12);
    for (int64_t i = 0; i < n; ++i) {
      const size_t k = r() % 5;
      c.in(k);
      if (k == 4) {
        pose = r.chance(.2) ? SE3::identity() : r.chance(.3) ? pose : gen_state(r, A, B).ref_from_body();
        if (framed) pose.set_frames(A, B);
        s.set_ref_from_body(pose);
      } else {
        V3 v(r.uniform(-2, 2), r.uniform(-2, 2), r.uniform(-2, 2));
        switch (r() % 7) {
          case 0: v.setZero(); break;
          case 1: v *= r.log_uniform(-30, 20); break;
          case 2: v = V3::Unit(static_cast<int>(r() % 3)) * v[0]; break;
          case 3: v = part[r() % 4]; break;
          case 4: v = -part[k]; break;
          default: break;
        }
        part[k] = v;
        switch (k) {
          case 0: s.set_body_linear_velocity_mps(v); break;
          case 1: s.set_body_angular_velocity_radps(v); break;
          case 2: s.set_body_linear_acceleration_mpss(v); break;
          default: s.set_body_angular_acceleration_radpss(v); break;
        }
      }
      c.check(maxdiff(mat(s.ref_from_body()), mat(pose)) == 0 && s.ref_from_body().into() == pose.into() && s.ref_from_body().from() == pose.from(), "setter-pose", cat("after setter ", k));
      c.check(V3(s.body_linear_velocity_mps()) == part[0] && V3(s.body_angular_velocity_radps()) == part[1] && V3(s.body_linear_acceleration_mpss()) == part[2] && V3(s.body_angular_acceleration_radpss()) == part[3], "setter-parts", cat("after setter ", k));
      c.event("setters");
    }
  });
  // Rigid body states compose like moving frames.
  m.section("states", 8000, 300000, [](Case &c) {
    Rng &r = c.rng;
    const Frame3 A = Frame3::new_frame(), B = Frame3::new_frame(), C = Frame3::new_frame();
    const State ab = gen_state(r, A, B), bc = gen_state(r, B, C), ac = gen_state(r, A, C);
    feed(c, ab.ref_from_body());
    feed(c, bc.ref_from_body());
    c.describe(cat("state ", str(ab.ref_from_body())));
    const Jet X = jet(ab.ref_from_body_two_jet()), Y = jet(bc.ref_from_body_two_jet()), Z = jet(ac.ref_from_body_two_jet());
    const LD sc = jscale(X) * jscale(Y) * jscale(X);
    const State p = ab * bc;
    chk(c, "state-compose", jdiff(jet(p.ref_from_body_two_jet()), mul(X, Y)), 4e-14L * sc, "composition");
    c.check(p.ref_from_body().into() == A && p.ref_from_body().from() == C, "state-compose-frames", "frames");
    const State q = ab.inverse_times(ac);
    chk(c, "state-inverse-times", jdiff(jet(q.ref_from_body_two_jet()), mul(inv(X), Z)), 4e-14L * jscale(X) * jscale(X) * jscale(X) * jscale(Z), "inverse_times");
    c.check(q.ref_from_body().into() == B && q.ref_from_body().from() == C, "state-inverse-frames", "frames");
    // An object relative to itself, and to one that moves along with it but speeds up otherwise.
    const State self = ab.inverse_times(ab), twin = ab.inverse_times(State(ab));
    const Jet still{M4l::Identity(), M4l::Zero(), M4l::Zero()};
    const LD self_tol = 4e-14L * jscale(X) * jscale(X) * jscale(X) * jscale(X);
    chk(c, "state-self", std::max(jdiff(jet(self.ref_from_body_two_jet()), still), jdiff(jet(twin.ref_from_body_two_jet()), still)), self_tol, "relative to itself");
    c.check(self.ref_from_body().into() == B && self.ref_from_body().from() == B && twin.ref_from_body().into() == B && twin.ref_from_body().from() == B, "state-self-frames", "relative to itself");
    {
      State pushed = r.chance(.5) ? ab : State(ab.ref_from_body());
      const State base(pushed);
      pushed.set_body_linear_acceleration_mpss(V3(gen_unit(r) * r.log_uniform(-3, 2)));
      if (r.chance(.5)) pushed.set_body_angular_acceleration_radpss(V3(gen_unit(r) * r.log_uniform(-3, 2)));
      const Jet P = jet(pushed.ref_from_body_two_jet()), S = jet(base.ref_from_body_two_jet());
      chk(c, "state-same-velocity", jdiff(jet(base.inverse_times(pushed).ref_from_body_two_jet()), mul(inv(S), P)), 4e-14L * jscale(S) * jscale(S) * jscale(S) * jscale(P), "equal velocities, other accelerations");
      const State on = ab * State::identity(B, C);
      chk(c, "state-rigid", jdiff(jet(ab.inverse_times(on).ref_from_body_two_jet()), still), self_tol, "rigidly attached");
    }
    const State back = ab.inverse_times(p);
    chk(c, "state-inverse-law", jdiff(jet(back.ref_from_body_two_jet()), Y), 4e-13L * sc * jscale(X) * jscale(X), "inverse_times undoes composition");
    c.must_throw<AssertException>("state-mismatch", [&] { ab *ac; });
    c.must_throw<AssertException>("state-mismatch", [&] { ab.inverse_times(bc); });
    const State id = State::identity(A, B), plain = State::identity(), raw(ab.ref_from_body_two_jet());
    c.check(id.ref_from_body().into() == A && id.ref_from_body().from() == B && !plain.ref_from_body().is_framed(), "state-identity-frames", "frames");
    const Jet I{M4l::Identity(), M4l::Zero(), M4l::Zero()};
    chk(c, "state-identity", std::max(jdiff(jet(id.ref_from_body_two_jet()), I), jdiff(jet(plain.ref_from_body_two_jet()), I)), 1e-15L, "identity state");
    chk(c, "state-default", jdiff(jet(State().ref_from_body_two_jet()), I), 1e-15L, "default state");
    chk(c, "state-identity-law", jdiff(jet((State::identity(A, A) * ab).ref_from_body_two_jet()), X), 4e-14L * jscale(X), "identity times state");
    chk(c, "state-identity-law", jdiff(jet((ab * State::identity(B, B)).ref_from_body_two_jet()), X), 4e-14L * jscale(X), "state times identity");
    c.check(sdiff(raw, ab) == 0 && raw.ref_from_body().into() == A && raw.ref_from_body().from() == B, "state-from-jet", "state built from a two-jet differs");
    State repose(ab);
    repose.set_ref_from_body(ac.ref_from_body());
    c.check(maxdiff(mat(repose.ref_from_body()), mat(ac.ref_from_body())) == 0 && repose.ref_from_body().from() == C && V3(repose.body_linear_velocity_mps()) == V3(ab.body_linear_velocity_mps()) &&
                V3(repose.body_angular_acceleration_radpss()) == V3(ab.body_angular_acceleration_radpss()), "state-set-pose", "setting the pose disturbs the derivatives");
    {
      SE3 bare = bc.ref_from_body();
      bare.set_unframed();
      repose.set_ref_from_body(bare);
      c.check(!repose.ref_from_body().is_framed() && !repose.ref_from_body_two_jet().ref_from_frame().is_framed() && maxdiff(mat(repose.ref_from_body()), mat(bare)) == 0, "state-set-pose", "an unframed pose did not stay as given");
      repose.set_ref_from_body(bc.ref_from_body());
      c.check(repose.ref_from_body().into() == B && repose.ref_from_body().from() == C && maxdiff(mat(repose.ref_from_body()), mat(bare)) == 0, "state-set-pose", "a framed pose did not stay as given");
      const State own = State(repose.ref_from_body(), repose.body_derivatives());
      repose.set_ref_from_body(repose.ref_from_body());
      c.check(sdiff(own, repose) == 0, "state-set-pose", "setting a state's own pose changed it");
    }
    // Derivative components go where they belong.
    const auto d = ab.body_derivatives();
    c.check(d.velocity.linear_mps == V3(ab.body_linear_velocity_mps()) && d.velocity.angular_radps == V3(ab.body_angular_velocity_radps()) &&
                d.acceleration.linear_mpss == V3(ab.body_linear_acceleration_mpss()) && d.acceleration.angular_radpss == V3(ab.body_angular_acceleration_radpss()),
            "state-components", "bundled and individual derivatives differ");
    const State copy(ab.ref_from_body(), d);
    c.check(sdiff(copy, ab) == 0, "state-rebuild", "state rebuilt from its derivatives differs");
    State set(ab.ref_from_body());
    c.check(V3(set.body_linear_velocity_mps()).isZero(0) && V3(set.body_angular_velocity_radps()).isZero(0) && V3(set.body_linear_acceleration_mpss()).isZero(0) && V3(set.body_angular_acceleration_radpss()).isZero(0), "state-default-derivatives", "not zero");
    const int order[4] = {static_cast<int>(r() % 4), 0, 1, 2};
    auto apply = [&](int k) {
      switch (k) {
        case 0: set.set_body_linear_velocity_mps(d.velocity.linear_mps); break;
        case 1: set.set_body_angular_velocity_radps(d.velocity.angular_radps); break;
        case 2: set.set_body_linear_acceleration_mpss(d.acceleration.linear_mpss); break;
        default: set.set_body_angular_acceleration_radpss(d.acceleration.angular_radpss); break;
      }
    };
    for (int k : order) apply(k);
    apply(3);
    c.check(sdiff(set, ab) == 0, "state-setters", "setters disturb each other");
    // tangent layout: body velocity moves the body along its own axes
    const double h = 1e-6;
    V6 v;
    v.head<3>() = d.velocity.angular_radps;
    v.tail<3>() = d.velocity.linear_mps;
    const M4l G = mat(ab.ref_from_body());
    const M4l moved = G * exp6((v * h).cast<LD>());
    const V3l vel = (moved - G).block<3, 1>(0, 3) / h;
    chk(c, "state-body-frame", maxdiff((G.block<3, 3>(0, 0) * d.velocity.linear_mps.cast<LD>()).eval(), vel), 1e-4, "linear velocity is not in the body frame");
    c.event("state_laws", 10);
  });
}
VH_MAIN(body)
