// Distance-parameterised curves.
#include "geo.hh"
#include "resim/assert/assert.hh"
#include "resim/curves/d_curve.hh"

#include <optional>

using namespace vh;
using resim::AssertException;
using Curve = resim::curves::DCurve<SE3>;

namespace {
void chk(Case &c, const char *key, LD err, LD tol, const std::string &what) {
  c.event("max_error_over_tol", static_cast<double>(err / tol));
  c.check_msg(err <= tol, key, [&] { return cat(what, ": deviates by ", static_cast<double>(err), " (limit ", static_cast<double>(tol), ")"); });
}
struct Plan {
  std::vector<SE3> pts;            // control poses
  std::vector<V6> step;            // body twist of each segment
  std::vector<LD> at;              // cumulative arc length
  std::vector<M4l> pose;           // control poses, extended precision
  bool framed = false;
  Frame3 ref, pt;
  double size = 1;
};
Plan plan(Rng &r, int n, bool degenerate) {
  Plan p;
  p.framed = r.chance(.5);
  if (p.framed) {
    p.ref = Frame3::new_frame();
    p.pt = Frame3::new_frame();
  }
  SE3 first = SE3(gen_so3(r), V3(gen_unit(r) * r.uniform(0, 20)));
  M4l g = mat(first);
  LD at = 0;
  for (int i = 0; i < n; ++i) {
    if (i > 0) {
      V6 s;
      s.head<3>() = gen_unit(r) * (r.chance(.15) ? M_PI - r.log_uniform(-3, -.5) : r.uniform(0, 2.8));
      s.tail<3>() = gen_unit(r) * (r.chance(.1) ? r.log_uniform(-3, 3) : r.uniform(.1, 5));
      if (r.chance(.2)) s.head<3>().setZero();
      if (degenerate && r.chance(.5)) {
        s.tail<3>().setZero();  // turning on the spot: no distance travelled
        if (r.chance(.5)) s.setZero();
      }
      p.step.push_back(s);
      g = g * exp6(s.cast<LD>());
      at += s.tail<3>().norm();
    }
    const M3 R = g.block<3, 3>(0, 0).cast<double>();
    const V3 t = g.block<3, 1>(0, 3).cast<double>();
    SE3 q(SO3(R), t);
    if (p.framed) q.set_frames(p.ref, p.pt);
    p.pts.push_back(q);
    p.at.push_back(at);
    p.pose.push_back(g);
    p.size = std::max(p.size, 1 + t.norm());
  }
  p.size += static_cast<double>(at);
  return p;
}
Curve make(Rng &r, const Plan &p) {
  switch (r() % 3) {
    case 0: return Curve(p.pts);
    case 1: {
      Curve k;
      for (const auto &q : p.pts) k.append(q);
      return k;
    }
    default: {
      Curve k{p.pts[0]};
      size_t i = 1;
      for (; i + 1 < p.pts.size(); i += 2) k.append({p.pts[i], p.pts[i + 1]});
      for (; i < p.pts.size(); ++i) k.append(p.pts[i]);
      return k;
    }
  }
}
void feed_plan(Case &c, const Plan &p) {
  for (const auto &q : p.pts) feed(c, q);
}
}  // namespace

void body(Monitor &m) {
  m.section("geometry", 3000, 100000, [](Case &c) {
    Rng &r = c.rng;
    const int n = static_cast<int>(r.range(2, 10));
    const Plan p = plan(r, n, false);
    feed_plan(c, p);
    c.describe(cat(n, " control points, length ", static_cast<double>(p.at.back()), p.framed ? ", framed" : ""));
    const Curve k = make(r, p);
    const LD tol = 5e-14L * p.size * n;
    const std::string s = cat(n, " points");
    c.check(k.control_pts().size() == p.pts.size() && k.segments().size() + 1 == p.pts.size(), "curve-size", s);
    chk(c, "curve-length", std::fabs(k.curve_length() - p.at.back()), tol, s);
    c.check(k.is_framed() == p.framed && k.reference_frame() == p.ref && k.point_frame() == p.pt, "curve-frames", s);
    for (int i = 0; i < n; ++i) {
      const auto &cp = k.control_pts()[static_cast<size_t>(i)];
      chk(c, "control-arc-length", std::fabs(cp.arc_length - p.at[i]), tol, cat(s, " control ", i));
      c.check(maxdiff(mat(*cp.ref_from_control), mat(p.pts[i])) == 0, "control-pose", s);
      const SE3 q = k.point_at(cp.arc_length);
      chk(c, "through-control", maxdiff(mat(q), p.pose[i]), 4 * tol, cat(s, " control ", i));
      c.check(q.into() == p.ref && q.from() == p.pt, "point-frames", s);
      c.event("control_visits");
    }
    for (int i = 0; i + 1 < n; ++i) {
      const auto &sg = k.segments()[static_cast<size_t>(i)];
      c.check(sg.orig_arc_length == k.control_pts()[i].arc_length && sg.dest_arc_length == k.control_pts()[i + 1].arc_length, "segment-extent", s);
      for (int q = 0; q < 5; ++q) {
        const double f = q < 3 ? r.unit() : q == 3 ? 1 - r.log_uniform(-14, -2) : r.log_uniform(-14, -2);
        const LD len = p.at[i + 1] - p.at[i];
        const double a = static_cast<double>(p.at[i] + f * len);
        if (!(a >= 0 && a <= k.curve_length())) continue;
        const LD ff = (a - p.at[i]) / len;
        const M4l want = p.pose[i] * exp6(p.step[i].cast<LD>() * ff);
        const SE3 got = k.point_at(a);
        chk(c, "on-geodesic", maxdiff(mat(got), want), 4 * tol + 4 * tol / len, cat(s, " at ", a));
        c.check(got.into() == p.ref && got.from() == p.pt, "point-frames", s);
        // Distance travelled from the start of the segment is the parameter.
        const SE3 rel = p.pts[i].inverse() * got;
        chk(c, "arc-length-parameter", std::fabs(rel.arc_length() - (a - p.at[i])), 4 * tol, cat(s, " at ", a));
        c.event("geodesic_samples");
      }
    }
  });
  // Unit speed and continuity along the whole curve, control points included.
  m.section("speed", 1500, 40000, [](Case &c) {
    Rng &r = c.rng;
    const int n = static_cast<int>(r.range(2, 8));
    const Plan p = plan(r, n, false);
    feed_plan(c, p);
    c.describe(cat("speed along ", n, " control points"));
    const Curve k = make(r, p);
    const double L = k.curve_length();
    const int N = 200;
    V3 prev = k.point_at(0).translation();
    LD total = 0;
    for (int i = 1; i <= N; ++i) {
      const double a = i == N ? L : L * i / N;
      const V3 x = k.point_at(a).translation();
      const double d = (x - prev).norm();
      c.check_msg(d <= L / N * (1 + 1e-9) + 1e-10 * p.size, "faster-than-arc-length", [&] { return cat("moved ", d, " over ", L / N, " of arc length at ", a); });
      total += d;
      prev = x;
      c.event("speed_samples");
    }
    c.check_msg(total <= L * (1 + 1e-9) + 1e-9 * p.size, "polyline-longer", [&] { return cat(static_cast<double>(total), " vs ", L); });
  });
  // Repeated control points and turns on the spot.
  m.section("degenerate", 2000, 50000, [](Case &c) {
    Rng &r = c.rng;
    const int n = static_cast<int>(r.range(2, 8));
    const Plan p = plan(r, n, true);
    feed_plan(c, p);
    c.describe(cat(n, " control points, some coincident, length ", static_cast<double>(p.at.back())));
    const Curve k = make(r, p);
    const double L = k.curve_length();
    for (int q = 0; q < 12; ++q) {
      double a = q == 0 ? 0 : q == 1 ? L : r.chance(.5) ? k.control_pts()[r() % k.control_pts().size()].arc_length : r.uniform(0, L);
      if (a > L) a = L;
      const SE3 g = k.point_at(a);
      c.check_msg(mat(g).cast<double>().allFinite(), "finite-pose", [&] { return cat("pose at ", a, " of ", L, " is not finite: ", str(g)); });
      // The position is determined by the arc length even where the heading is not.
      size_t i = 0;
      while (i + 2 < p.at.size() && p.at[i + 1] < a) ++i;
      const LD len = p.at[i + 1] - p.at[i];
      if (len > 1e-6L || len == 0) {
        const LD ff = len == 0 ? 0 : (a - p.at[i]) / len;
        const V3l want = (p.pose[i] * exp6(p.step[i].cast<LD>() * ff)).block<3, 1>(0, 3);
        chk(c, "degenerate-position", maxdiff(g.translation(), want), 1e-11L * p.size * n, cat("at ", a, " of ", L));
      }
      c.check(maxdiff((mat(g.rotation()) * mat(g.rotation()).transpose()).eval(), M3l::Identity()) < 1e-10, "degenerate-rotation", "not a rotation");
      c.event("degenerate_samples");
    }
  });
  // Roads of many control points: every one of them and every segment between.
  m.section("long", 24, 400, [](Case &c) {
    Rng &r = c.rng;
    const int n = static_cast<int>(c.index % 6 == 0 ? r.range(1000, 1500) : r.range(20, 400));
    const Plan p = plan(r, n, false);
    c.in(static_cast<int64_t>(n));
    for (int i = 0; i < 5; ++i) feed(c, p.pts[static_cast<size_t>(i)]);
    c.describe(cat(n, " control points, length ", static_cast<double>(p.at.back())));
    const Curve k = make(r, p);
    const LD tol = 5e-14L * p.size * n;
    c.check(k.control_pts().size() == p.pts.size() && k.segments().size() + 1 == p.pts.size(), "curve-size", cat(n, " points"));
    chk(c, "curve-length", std::fabs(k.curve_length() - p.at.back()), tol, cat(n, " points"));
    for (int i = 0; i < n; ++i) {
      const auto &cp = k.control_pts()[static_cast<size_t>(i)];
      chk(c, "control-arc-length", std::fabs(cp.arc_length - p.at[i]), tol, cat(n, " points, control ", i));
      chk(c, "through-control", maxdiff(mat(k.point_at(cp.arc_length)), p.pose[i]), 4 * tol, cat(n, " points, control ", i));
      c.event("long_visits");
      if (i + 1 == n) break;
      const LD len = p.at[i + 1] - p.at[i], f = r.unit();
      const double a = static_cast<double>(p.at[i] + f * len);
      if (!(a >= 0 && a <= k.curve_length())) continue;
      const M4l want = p.pose[i] * exp6(p.step[i].cast<LD>() * ((a - p.at[i]) / len));
      chk(c, "on-geodesic", maxdiff(mat(k.point_at(a)), want), 4 * tol + 4 * tol / len, cat(n, " points, at ", a));
    }
  });
  // Short hops, with turns of any size, from the start of the curve: where
  // lengths carry no rounding from earlier segments the accuracy is relative.
  m.section("short", 3000, 100000, [](Case &c) {
    Rng &r = c.rng;
    const double mag = r.log_uniform(-12, 0);
    V6 s;
    s.head<3>() = r.chance(.2) ? V3::Zero().eval() : V3(gen_unit(r) * (r.chance(.5) ? r.uniform(0, 2.8) : r.log_uniform(-12, 0)));
    s.tail<3>() = gen_unit(r) * mag;
    feed(c, s);
    c.describe(cat("a first hop of length ", mag));
    const M4l g = exp6(s.cast<LD>());
    const SE3 dest(SO3(M3(g.block<3, 3>(0, 0).cast<double>())), V3(g.block<3, 1>(0, 3).cast<double>()));
    Curve k{SE3::identity(), dest};
    if (r.chance(.5)) k.append(dest * SE3(V3(gen_unit(r) * r.uniform(0, 2))));
    const double at = k.control_pts()[1].arc_length;
    const std::string w = cat("hop ", str(s));
    chk(c, "short-length", std::fabs(at - static_cast<LD>(s.tail<3>().norm())), 1e-11L * mag, w);
    for (int q = 0; q < 6; ++q) {
      const double f = q == 0 ? 1 : q == 1 ? 1 - r.log_uniform(-14, -1) : q == 2 ? r.log_uniform(-14, -1) : r.unit();
      const SE3 p = k.point_at(std::min(at, at * f));
      const M4l want = exp6(s.cast<LD>() * static_cast<LD>(f));
      chk(c, "short-position", maxdiff(p.translation(), want.block<3, 1>(0, 3).eval()), 1e-11L * mag, cat(w, " at ", f));
      chk(c, "short-rotation", maxdiff(mat(p.rotation()), want.block<3, 3>(0, 0).eval()), 1e-11L, cat(w, " at ", f));
      c.event("short_samples");
    }
  });
  m.section("rejections", 1500, 20000, [](Case &c) {
    Rng &r = c.rng;
    const int n = static_cast<int>(r.range(2, 6));
    const Plan p = plan(r, n, false);
    feed_plan(c, p);
    c.describe(cat("rejections on ", n, " control points"));
    Curve k = make(r, p);
    const double L = k.curve_length(), inf = std::numeric_limits<double>::infinity();
    for (double a : {-1e-300, -1e-9, -1., std::nextafter(L, inf), L + 1, L * 2 + 1, inf, -inf, std::numeric_limits<double>::quiet_NaN(), -r.log_uniform(-9, 3), L + r.log_uniform(-3, 3)})
      c.must_throw<AssertException>("curve-range", [&] { k.point_at(a); }, cat("query at ", a, " of ", L));
    k.point_at(L);
    c.check(maxdiff(mat(k.point_at(-0.)), mat(k.point_at(0))) == 0, "curve-start", "the start differs with the sign of zero");
    if (p.framed) {
      auto refused = [&](const SE3 &g, const char *what) {
        c.must_throw<AssertException>("curve-append-frames", [&] { k.append(g); }, what);
        c.check(k.control_pts().size() == p.pts.size() && k.segments().size() + 1 == p.pts.size() && k.curve_length() == L, "curve-append-effect", what);
      };
      SE3 g = p.pts.back();
      g.set_frames(Frame3::new_frame(), p.pt);
      refused(g, "another reference frame");
      g.set_frames(p.ref, Frame3::new_frame());
      refused(g, "another point frame");
      g.set_frames(p.pt, p.ref);
      refused(g, "swapped frames");
      g.set_unframed();
      refused(g, "unframed pose on a framed curve");
    }
    Curve e;
    c.check(e.curve_length() == 0, "empty-length", "empty");
    c.must_throw<AssertException>("curve-empty", [&] { e.point_at(0); });
    c.must_throw<AssertException>("curve-empty", [&] { e.is_framed(); });
    c.must_throw<AssertException>("curve-empty", [&] { e.point_frame(); });
    c.must_throw<AssertException>("curve-empty", [&] { e.reference_frame(); });
    e.append(p.pts[0]);
    c.check(e.curve_length() == 0 && e.is_framed() == p.framed, "single", "single control point");
    c.must_throw<AssertException>("curve-single", [&] { e.point_at(0); });
  });
  // Curves that come and go in the same storage answer for themselves.
  m.section("storage-reuse", 1000, 20000, [](Case &c) {
    Rng &r = c.rng;
    c.describe("curves built one after the other in the same storage");
    std::optional<Curve> slot;
    Curve kept;
    for (int i = 0; i < 6; ++i) {
      const Plan p = plan(r, 2, false);
      feed_plan(c, p);
      const bool fresh = r.chance(.5);
      if (fresh) slot.emplace(p.pts);
      else kept = Curve(p.pts);
      const Curve &k = fresh ? *slot : kept;
      const double f = r.chance(.3) ? 1 : r.unit();
      const M4l want = p.pose[0] * exp6(p.step[0].cast<LD>() * static_cast<LD>(f));
      const LD tol = 5e-14L * p.size * 2, len = p.at[1];
      chk(c, "reused-storage", maxdiff(mat(k.point_at(std::min(k.curve_length(), k.curve_length() * f))), want), 4 * tol + 8 * tol / len, cat("curve ", i, " at fraction ", f));
      c.event("reused");
    }
  });
  // Poses given as a list, as a vector and one by one make the same curve, and a bad one is refused wherever it stands.
  m.section("lists", 1500, 20000, [](Case &c) {
    Rng &r = c.rng;
    const int n = static_cast<int>(r.range(2, 10));
    const Plan p = plan(r, n, r.chance(.5));
    feed_plan(c, p);
    const bool spoil = p.framed && r.chance(.4);
    c.describe(cat("lists of ", n, " poses", spoil ? ", one of them bad" : ""));
    std::vector<SE3> v = p.pts;
    if (spoil) {
      SE3 &q = v[1 + static_cast<size_t>(r() % static_cast<uint64_t>(n - 1))];
      switch (r() % 3) {
        case 0: q.set_unframed(); break;
        case 1: q.set_frames(p.ref, Frame3::new_frame()); break;
        default: q.set_frames(Frame3::new_frame(), p.pt); break;
      }
    }
    const size_t split = static_cast<size_t>(r() % static_cast<uint64_t>(n));
    auto attempt = [&](const char *how, auto make) {
      if (spoil) {
        c.must_throw<AssertException>("list-rejects", [&] { make(); }, how);
        return;
      }
      const Curve k = make();
      c.check(k.control_pts().size() == v.size() && k.segments().size() + 1 == v.size(), "list-extent", cat(how, " of ", n, " poses"));
      chk(c, "list-length", std::fabs(static_cast<LD>(k.curve_length()) - p.at.back()), 1e-9L * p.size, cat(how, " of ", n, " poses"));
      for (size_t i = 0; i < v.size() && i < k.control_pts().size(); ++i)
        c.check(maxdiff(mat(*k.control_pts()[i].ref_from_control), mat(v[i])) == 0, "list-pose", cat(how, " of ", n, " poses, number ", i));
      c.event("lists");
    };
    attempt("vector", [&] { return Curve(v); });
    with_list(v, [&](std::initializer_list<SE3> l) {
      attempt("list", [&] { return Curve(l); });
      attempt("appended list", [&] { Curve k; k.append(l); return k; });
    });
    with_list(std::vector<SE3>(v.begin() + static_cast<long>(split), v.end()), [&](std::initializer_list<SE3> l) {
      attempt("appended tail", [&] { Curve k; for (size_t i = 0; i < split; ++i) k.append(v[i]); k.append(l); return k; });
    });
  });
  // Copies of a curve are independent of later appends to the original.
  m.section("copies", 500, 5000, [](Case &c) {
    Rng &r = c.rng;
    const Plan p = plan(r, 4, false);
    feed_plan(c, p);
    c.describe("copies of a curve");
    Curve k{p.pts[0], p.pts[1], p.pts[2]};
    const Curve cp = k;
    const double L = cp.curve_length();
    const M4l mid = mat(cp.point_at(L / 2));
    k.append(p.pts[3]);
    c.check(cp.curve_length() == L && cp.control_pts().size() == 3 && maxdiff(mat(cp.point_at(L / 2)), mid) == 0, "copy-independent", "copy changed");
    chk(c, "prefix-stable", maxdiff(mat(k.point_at(L / 2)), mid), 0, "append moved an earlier point");
    c.event("copies");
  });
}
VH_MAIN(body)
