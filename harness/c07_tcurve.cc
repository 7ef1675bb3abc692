// Time-parameterised curves.
#include "jets.hh"
#include "resim/assert/assert.hh"
#include "resim/curves/quintic_poly_coeffs.hh"
#include "resim/curves/t_curve.hh"

#include <optional>

using namespace vh;
using resim::AssertException;
using resim::curves::TCurve;
using resim::curves::TCurveSegment;

namespace {
void chk(Case &c, const char *key, LD err, LD tol, const std::string &what) {
  c.event(std::string(key).rfind("reference", 0) == 0 ? "max_reference_error_over_tol" : "max_error_over_tol", static_cast<double>(err / tol));
  c.check_msg(err <= tol, key, [&] { return cat(what, ": deviates by ", static_cast<double>(err), " (limit ", static_cast<double>(tol), ")"); });
}
template <typename G>
using Control = typename TCurve<G>::Control;
template <typename G>
using TV = typename G::TangentVector;

// A moderate next pose, less than half a turn from the previous one.
template <typename G>
G step(Rng &r, const G &prev, double ang, double dist);
template <>
SO3 step<SO3>(Rng &r, const SO3 &prev, double ang, double) {
  return SO3(M3(exp3((gen_unit(r) * ang).cast<LD>()).cast<double>() * prev.rotation_matrix()));
}
template <>
SE3 step<SE3>(Rng &r, const SE3 &prev, double ang, double dist) {
  const SO3 rot = step<SO3>(r, prev.rotation(), ang, 0);
  return SE3(rot, V3(prev.translation() + gen_unit(r) * dist));
}
template <typename G>
struct Curve {
  TCurve<G> curve;
  std::vector<Control<G>> pts;
  Frame3 into, from;
  bool framed = false;
  double dmax = 1;
};
template <typename G>
Curve<G> gen_curve(Rng &r, int n) {
  Curve<G> k;
  k.framed = r.chance(.5);
  if (k.framed) {
    k.into = Frame3::new_frame();
    k.from = Frame3::new_frame();
  }
  double t = r.pick<double>({0., 0., -0., -5., 3.25, 1000., r.uniform(-10, 10)});
  G g = gen_group<G>(r);
  if constexpr (std::is_same_v<G, SE3>) g = SE3(g.rotation(), V3(gen_unit(r) * r.uniform(0, 30)));
  // All segment durations of a curve within two orders of magnitude.
  const double base = r.chance(.8) ? 1. : r.log_uniform(-2, 2);
  for (int i = 0; i < n; ++i) {
    G p = g;
    if (k.framed) p.set_frames(k.into, k.from);
    TV<G> d, d2;
    for (long j = 0; j < d.size(); ++j) {
      d(j) = r.chance(.1) ? 0 : r.uniform(-1, 1) / base;
      d2(j) = r.chance(.1) ? 0 : r.uniform(-1, 1) / base / base;
    }
    k.pts.push_back({t, TwoJetL<G>(p, d, d2)});
    t += base * (r.chance(.2) ? r.uniform(.05, .2) : r.uniform(.5, 2));
    g = step<G>(r, g, r.chance(.15) ? 0. : r.uniform(0, 2.8), r.chance(.1) ? 0. : r.uniform(0, 5));
  }
  switch (r() % 3) {
    case 0: k.curve = TCurve<G>(k.pts); break;
    case 1:
      for (const auto &p : k.pts) k.curve.append(p);
      break;
    default: {
      size_t i = 0;
      for (; i + 1 < k.pts.size(); i += 2) k.curve.append({k.pts[i], k.pts[i + 1]});
      for (; i < k.pts.size(); ++i) k.curve.append(k.pts[i]);
    }
  }
  return k;
}
template <typename G>
void feed_curve(Case &c, const Curve<G> &k) {
  for (const auto &p : k.pts) {
    c.in(p.time);
    feed(c, p.point.frame_from_ref());
    feed(c, p.point.d_frame_from_ref());
  }
}
template <typename G>
LD diff(const TwoJetL<G> &a, const TwoJetL<G> &b) {
  return std::max({maxdiff(mat4(a.frame_from_ref()), mat4(b.frame_from_ref())), maxdiff(a.d_frame_from_ref(), b.d_frame_from_ref()),
                   maxdiff(a.d2_frame_from_ref(), b.d2_frame_from_ref())});
}

template <typename G>
void controls(Case &c) {
  Rng &r = c.rng;
  const int n = static_cast<int>(r.range(2, 9));
  const Curve<G> k = gen_curve<G>(r, n);
  feed_curve(c, k);
  c.describe(cat(n, " control points from ", k.pts.front().time, " to ", k.pts.back().time, k.framed ? " framed" : ""));
  const std::string s = cat(n, " points, ", k.framed ? "framed" : "unframed");
  c.check(k.curve.control_pts().size() == k.pts.size() && k.curve.segments().size() + 1 == k.pts.size(), "curve-size", s);
  c.check(k.curve.start_time() == k.pts.front().time && k.curve.end_time() == k.pts.back().time, "curve-extent", s);
  c.check(k.curve.is_framed() == k.framed && k.curve.point_frame() == k.into && k.curve.reference_frame() == k.from, "curve-frames", s);
  for (size_t i = 0; i < k.pts.size(); ++i) {
    const auto &p = k.pts[i];
    c.check(k.curve.control_pts()[i].time == p.time && diff(k.curve.control_pts()[i].point, p.point) == 0, "curve-keeps-controls", s);
    // Through each control point with its velocity and acceleration...
    const TwoJetL<G> at = k.curve.point_at(p.time);
    const LD sc = jscale(jet(p.point));
    chk(c, "curve-control-pose", maxdiff(mat4(at.frame_from_ref()), mat4(p.point.frame_from_ref())), 1e-11L * sc, cat(s, " at control ", i));
    chk(c, "curve-control-velocity", maxdiff(at.d_frame_from_ref(), p.point.d_frame_from_ref()), 1e-10L * sc, cat(s, " at control ", i));
    chk(c, "curve-control-acceleration", maxdiff(at.d2_frame_from_ref(), p.point.d2_frame_from_ref()), 1e-9L * sc, cat(s, " at control ", i));
    // ... from both sides (second-order continuity).
    for (int side : {-1, 1}) {
      if ((i == 0 && side < 0) || (i + 1 == k.pts.size() && side > 0)) continue;
      const double dt = side < 0 ? p.time - k.pts[i - 1].time : k.pts[i + 1].time - p.time;
      const double q = p.time + side * dt * 1e-8;
      const TwoJetL<G> near = k.curve.point_at(q);
      // Third derivatives are bounded by a few hundred over dt^3 for these curves.
      const LD grow = sc * 2e-5L * (1 + 1 / dt) * (1 + 1 / dt) * (1 + dt);
      chk(c, "curve-continuity", diff(near, at), grow, cat(s, " beside control ", i));
      c.check(near.frame_from_ref().into() == k.into && near.frame_from_ref().from() == k.from, "curve-point-frames", s);
    }
    c.event("control_visits");
  }
}

// Velocity and acceleration reported inside segments are the derivatives of the
// reported poses: check by central differences of poses and of velocities.
template <typename G>
void derivatives(Case &c) {
  Rng &r = c.rng;
  const int n = static_cast<int>(r.range(2, 6));
  const Curve<G> k = gen_curve<G>(r, n);
  feed_curve(c, k);
  c.describe(cat(n, " control points"));
  for (int q = 0; q < 6; ++q) {
    const size_t i = static_cast<size_t>(r() % (k.pts.size() - 1));
    const double t0 = k.pts[i].time, dt = k.pts[i + 1].time - t0;
    const double t = t0 + dt * r.uniform(.02, .98);
    const double h = dt * 1e-4;
    const auto a = k.curve.point_at(t - h), b = k.curve.point_at(t + h), m = k.curve.point_at(t);
    const TV<G> fd = (b.frame_from_ref() * a.frame_from_ref().inverse()).log() / (2 * h);
    const TV<G> fd2 = (b.d_frame_from_ref() - a.d_frame_from_ref()) / (2 * h);
    const LD gs = 1 + mat4(m.frame_from_ref()).cwiseAbs().maxCoeff();
    const LD s1 = gs * (1 + m.d_frame_from_ref().norm()) * (1 + 1 / dt), s2 = gs * (1 + m.d_frame_from_ref().norm() + m.d2_frame_from_ref().norm()) * (1 + 1 / (dt * dt));
    chk(c, "curve-velocity", maxdiff(fd, m.d_frame_from_ref()), 1e-4L * s1, cat("velocity at ", t));
    chk(c, "curve-acceleration", maxdiff(fd2, m.d2_frame_from_ref()), 1e-4L * s2, cat("acceleration at ", t));
    c.check(maxdiff((mat4(m.frame_from_ref()).template block<3, 3>(0, 0) * mat4(m.frame_from_ref()).template block<3, 3>(0, 0).transpose()).eval(), M3l::Identity()) < 1e-12, "curve-rotation", "pose left the group");
    c.event("derivative_samples");
  }
}

// Hermite quintic, solved independently (monomial basis in normalised time).
struct Quintic {
  LD k[6];
};
Quintic hermite(LD p0, LD v0, LD a0, LD p1, LD v1, LD a1) {
  Quintic q;
  q.k[0] = p0;
  q.k[1] = v0;
  q.k[2] = a0 / 2;
  const LD A = p1 - p0 - v0 - a0 / 2, B = v1 - v0 - a0, C = a1 - a0;
  q.k[3] = 10 * A - 4 * B + C / 2;
  q.k[4] = -15 * A + 7 * B - C;
  q.k[5] = 6 * A - 3 * B + C / 2;
  return q;
}
void eval(const Quintic &q, LD u, LD &p, LD &v, LD &a) {
  p = v = a = 0;
  for (int i = 5; i >= 0; --i) p = p * u + q.k[i];
  for (int i = 5; i >= 1; --i) v = v * u + i * q.k[i];
  for (int i = 5; i >= 2; --i) a = a * u + i * (i - 1) * q.k[i];
}

// A single normalised segment.
template <typename G>
void segment(Case &c) {
  Rng &r = c.rng;
  const Curve<G> k = gen_curve<G>(r, 2);
  feed_curve(c, k);
  c.describe("one normalised segment");
  const auto &a = k.pts[0].point, &b = k.pts[1].point;
  const TCurveSegment<G> seg(a, b);
  const LD sc = jscale(jet(a)) + jscale(jet(b));
  chk(c, "segment-start", diff(seg.point_at(0), a), 1e-10L * sc, "normalised start");
  chk(c, "segment-end", diff(seg.point_at(1), b), 1e-10L * sc, "normalised end");
  c.check(diff(seg.orig(), a) == 0 && diff(seg.dest(), b) == 0, "segment-ends", "stored ends");
  c.check(seg.is_framed() == k.framed && seg.reference_frame() == k.from && seg.point_frame() == k.into, "segment-frames", "frames");
  const auto mid = seg.point_at(r.unit()).frame_from_ref();
  c.check(mid.into() == k.into && mid.from() == k.from, "segment-point-frames", "frames of a point");
  auto with = [&](const Frame3 &i, const Frame3 &f) {
    G g = b.frame_from_ref();
    g.set_frames(i, f);
    return TwoJetL<G>(g, b.d_frame_from_ref(), b.d2_frame_from_ref());
  };
  const Frame3 n = Frame3::new_frame(), n2 = Frame3::new_frame();
  if (k.framed) {
    c.must_throw<AssertException>("segment-mismatch", [&] { TCurveSegment<G> x(a, with(k.into, n)); });
    c.must_throw<AssertException>("segment-mismatch", [&] { TCurveSegment<G> x(a, with(n, k.from)); });
  } else {
    c.must_throw<AssertException>("segment-mismatch", [&] { TCurveSegment<G> x(a, with(n, n2)); });
  }
}

template <typename G>
void rejections(Case &c) {
  Rng &r = c.rng;
  const int n = static_cast<int>(r.range(2, 6));
  Curve<G> k = gen_curve<G>(r, n);
  feed_curve(c, k);
  c.describe(cat("rejections on ", n, " control points"));
  const double lo = k.pts.front().time, hi = k.pts.back().time, inf = std::numeric_limits<double>::infinity();
  for (double t : {std::nextafter(lo, -inf), std::nextafter(hi, inf), lo - 1, hi + 1, -inf, inf, std::numeric_limits<double>::quiet_NaN(), lo - r.log_uniform(-6, 6), hi + r.log_uniform(-6, 6)}) {
    if (t >= lo && t <= hi) continue;
    c.must_throw<AssertException>("curve-range", [&] { k.curve.point_at(t); }, cat("query at ", t, " on [", lo, ",", hi, "]"));
  }
  k.curve.point_at(lo);
  k.curve.point_at(hi);
  // Appends out of order or in other frames are refused and change nothing.
  const auto before = k.curve.control_pts().size();
  auto refused = [&](const char *key, Control<G> p, const std::string &what) {
    c.must_throw<AssertException>(key, [&] { k.curve.append(p); }, what);
    c.check(k.curve.control_pts().size() == before && k.curve.segments().size() + 1 == before && k.curve.end_time() == hi, "curve-append-effect", what);
  };
  auto last = k.pts.back();
  for (double t : {hi, std::nextafter(hi, -inf), lo, hi - 1, std::numeric_limits<double>::quiet_NaN(), -inf}) {
    auto p = last;
    p.time = t;
    refused("curve-append-order", p, cat("append at ", t, " after ", hi));
  }
  G g = last.point.frame_from_ref();
  auto with = [&](const G &x) { return Control<G>{hi + 1, TwoJetL<G>(x, last.point.d_frame_from_ref(), last.point.d2_frame_from_ref())}; };
  if (k.framed) {
    G x = g;
    x.set_frames(Frame3::new_frame(), k.from);
    refused("curve-append-frames", with(x), "another point frame");
    x.set_frames(k.into, Frame3::new_frame());
    refused("curve-append-frames", with(x), "another reference frame");
    x.set_frames(k.from, k.into);
    refused("curve-append-frames", with(x), "swapped frames");
    x.set_unframed();
    refused("curve-append-frames", with(x), "unframed point on a framed curve");
  } else {
    G x = g;
    x.set_frames(Frame3::new_frame(), Frame3::new_frame());
    refused("curve-append-frames", with(x), "framed point on an unframed curve");
  }
  // Too few points to query
  TCurve<G> e;
  c.must_throw<AssertException>("curve-empty", [&] { e.point_at(0); });
  c.must_throw<AssertException>("curve-empty", [&] { e.start_time(); });
  c.must_throw<AssertException>("curve-empty", [&] { e.end_time(); });
  c.must_throw<AssertException>("curve-empty", [&] { e.reference_frame(); });
  c.must_throw<AssertException>("curve-empty", [&] { e.point_frame(); });
  c.must_throw<AssertException>("curve-empty", [&] { e.is_framed(); });
  e.append(k.pts[0]);
  c.must_throw<AssertException>("curve-single", [&] { e.point_at(k.pts[0].time); });
  c.check(e.start_time() == k.pts[0].time && e.end_time() == k.pts[0].time, "curve-single", "extent");
  // The curve remains usable after every refusal.
  auto p = last;
  p.time = hi + 1;
  k.curve.append(p);
  chk(c, "curve-after-refusal", diff(k.curve.point_at(hi + 1), p.point), 1e-9L * jscale(jet(p.point)), "append after refusals");
}
// What a curve says depends on its control points only: not on earlier queries,
// on how it was built, or on what happens to copies of it. Long curves too.
template <typename G>
void history(Case &c) {
  Rng &r = c.rng;
  const int n = static_cast<int>(r.chance(.25) ? r.range(40, 400) : r.range(2, 14));
  Curve<G> k = gen_curve<G>(r, n);
  feed_curve(c, k);
  c.describe(cat("queries in random order over ", n, " control points, with copies and appends"));
  TCurve<G> copy(k.curve);
  TCurve<G> assigned;
  assigned.append(k.pts.front());
  assigned = TCurve<G>(k.curve);
  TCurve<G> tmp(k.curve), moved(std::move(tmp));
  const TCurve<G> byvec(k.pts);
  TCurve<G> grown;  // queried while it grows
  auto same = [&](const char *key, const TwoJetL<G> &a, const TwoJetL<G> &b, double t) {
    chk(c, key, diff(a, b), 1e-12L * jscale(jet(a)), cat(n, " points, at ", t));
    c.check(a.frame_from_ref().into() == k.into && a.frame_from_ref().from() == k.from && b.frame_from_ref().into() == k.into && b.frame_from_ref().from() == k.from, "history-frames", "frames of a queried point");
  };
  size_t have = 0;
  double t = k.pts.front().time;
  for (int q = 0; q < 24; ++q) {
    const size_t upto = q == 23 ? k.pts.size() : std::min<size_t>(k.pts.size(), have + static_cast<size_t>(r.range(0, 1 + n / 12)));
    for (; have < upto; ++have) grown.append(k.pts[have]);
    const double lo = k.pts.front().time, hi = k.pts.back().time;
    switch (r() % 5) {
      case 0: t = r.pick(k.pts).time; break;
      case 1: t = std::min(hi, t + r.uniform(0, hi - lo) * .05); break;
      case 2: t = std::max(lo, t - r.uniform(0, hi - lo) * .05); break;
      default: t = std::clamp(r.uniform(lo, hi), lo, hi); break;
    }
    // The segment that holds t, found by a plain scan.
    size_t i = 0;
    while (i + 2 < k.pts.size() && k.pts[i + 1].time < t) ++i;
    const TwoJetL<G> want = TCurve<G>({k.pts[i], k.pts[i + 1]}).point_at(t);
    same("history-query", k.curve.point_at(t), want, t);
    same("history-copy", copy.point_at(t), want, t);
    same("history-assign", assigned.point_at(t), want, t);
    same("history-move", moved.point_at(t), want, t);
    same("history-vector", byvec.point_at(t), want, t);
    if (have >= 2 && t <= k.pts[have - 1].time) same("history-grown", grown.point_at(t), want, t);
    c.event("history_queries", 5);
  }
  c.check(grown.control_pts().size() == k.pts.size() && grown.end_time() == k.pts.back().time, "history-grown", "extent after growing");
  // A change of a copy stays there.
  Control<G> extra = k.pts.back();
  extra.time += 1;
  const size_t before = k.curve.control_pts().size();
  copy.append(extra);
  c.check(k.curve.control_pts().size() == before && k.curve.end_time() == k.pts.back().time && copy.end_time() == extra.time && copy.segments().size() == before, "history-independent", "appending to a copy changed the original");
  c.must_throw<AssertException>("history-independent", [&] { k.curve.point_at(k.pts.back().time + .5); });
  copy.point_at(k.pts.back().time + .5);
}
// One span against the same motion in extended precision: the product of the
// five one-parameter motions weighted by the quintic basis, at every scale of
// time and of motion and arbitrarily close to the ends.
M4l exp_alg(const V6 &v, LD x) { return exp6(v.cast<LD>() * x); }
M4l exp_alg(const V3 &v, LD x) { return embed(exp3(v.cast<LD>() * x)); }
template <typename G>
TV<G> part(const V3 &w, const V3 &v);
template <>
V6 part<SE3>(const V3 &w, const V3 &v) {
  V6 a;
  a << w, v;
  return a;
}
template <>
V3 part<SO3>(const V3 &w, const V3 &) {
  return w;
}
inline SE3 from_mat(const M4l &g, const SE3 *) { return SE3(SO3(M3(g.block<3, 3>(0, 0).cast<double>())), V3(g.block<3, 1>(0, 3).cast<double>())); }
inline SO3 from_mat(const M4l &g, const SO3 *) { return SO3(M3(g.block<3, 3>(0, 0).cast<double>())); }
template <typename G>
void reference(Case &c) {
  Rng &r = c.rng;
  const bool tiny = r.chance(.4);  // everything moves by about `mag` from the identity
  const double mag = tiny ? r.log_uniform(-14, -2) : 1.;
  const double dt = r.chance(.3) ? 1. : r.log_uniform(-7, 6);
  const double t0 = r.chance(.5) ? 0. : dt * r.uniform(-3, 3);
  const double t1 = t0 + dt;
  const LD h = static_cast<LD>(t1) - t0;
  auto some = [&](double to) -> TV<G> {
    if (r.chance(.12)) return TV<G>::Zero();
    const double s = (r.chance(.25) ? r.log_uniform(-8, 0) : 1.) * to;
    return part<G>(gen_unit(r) * r.uniform(0, 1) * s, gen_unit(r) * r.uniform(0, 3) * s);
  };
  TV<G> rel = part<G>(gen_unit(r) * r.uniform(0, tiny ? 1. : 2.9) * mag, gen_unit(r) * r.uniform(0, 5) * mag);
  if (r.chance(.1)) rel.setZero();
  if (!tiny && r.chance(.2)) rel *= r.log_uniform(-13, -3);
  G a = tiny ? G::identity() : gen_group<G>(r);
  if constexpr (std::is_same_v<G, SE3>)
    if (!tiny) a = SE3(a.rotation(), V3(gen_unit(r) * r.uniform(0, 10)));
  const G b = from_mat(exp_alg(rel, 1) * mat4(a), static_cast<const G *>(nullptr));
  const double idt = static_cast<double>(1 / h);
  const TV<G> v0 = some(mag) * idt, v1 = some(mag) * idt, a0 = some(mag) * idt * idt, a1 = some(mag) * idt * idt;
  const TCurve<G> k{{t0, TwoJetL<G>(a, v0, a0)}, {t1, TwoJetL<G>(b, v1, a1)}};
  c.in(mag);
  c.in(dt);
  feed(c, rel);
  feed(c, v0);
  c.describe(cat("span of ", dt, " s, motion of size ", mag));
  const LD T = tiny ? 0 : mat4(a).cwiseAbs().maxCoeff();
  for (int q = 0; q < 8; ++q) {
    const double near = r.log_uniform(-15, -1);
    const double f = q == 0 ? 0 : q == 1 ? 1 : q < 4 ? near : q < 6 ? 1 - near : r.unit();
    const double t = std::clamp(q == 1 ? t1 : t0 + dt * f, t0, t1);
    const LD u = (static_cast<LD>(t) - t0) / h;
    Jet want{M4l::Identity(), M4l::Zero(), M4l::Zero()};
    const TV<G> vs[5] = {rel, v0, v1, a0, a1};
    const LD unit[5] = {1, h, h, h * h, h * h};
    for (int i = 0; i < 5; ++i) {
      const Quintic z = hermite(0, i == 1, i == 3, i == 0, i == 2, i == 4);
      LD x, d, d2;
      eval(z, u, x, d, d2);
      x *= unit[i];
      d *= unit[i];
      d2 *= unit[i];
      const M4l e = exp_alg(vs[i], x), V = hat4(vs[i]);
      want = mul(Jet{e, d * V * e, (d2 * V + d * V * d * V) * e}, want);
    }
    const TwoJetL<G> got = k.point_at(t);
    const M4l wi = rigid_inverse(want.g);
    const M4l D = want.d * wi, A = want.d2 * wi - D * D;
    const LD slack = 1 + 1e3L * static_cast<LD>(std::fabs(t0) / dt);  // eps |t| / dt of normalised time
    const LD tol = 1e-11L * slack * (mag + static_cast<LD>(1e-3) * T);
    const std::string s = cat("span ", dt, " motion ", mag, " at fraction ", static_cast<double>(u));
    const M4l gw = want.g * mat4(a), gg = mat4(got.frame_from_ref());
    chk(c, "reference-pose", maxdiff(gg, gw), tol * (tiny ? 1 : 1 + T) + 5e-16L, s);
    if (tiny) {  // the motion itself: the skew part of the rotation, and the translation
      auto skew = [](M4l m) {
        const M3l R = m.block<3, 3>(0, 0);
        m.block<3, 3>(0, 0) = (R - R.transpose()) / 2;
        return m;
      };
      const M4l x = skew(gg), y = skew(gw);
      chk(c, "reference-tiny-pose", maxdiff(x, y), tol, s);
    }
    chk(c, "reference-velocity", maxdiff(hat4(got.d_frame_from_ref()), (D / h).eval()), 10 * tol * idt, s);
    chk(c, "reference-acceleration", maxdiff(hat4(got.d2_frame_from_ref()), (A / h / h).eval()), 100 * tol * idt * idt, s);
    c.event("reference_samples");
  }
}

// Curves and segments that come and go in the same storage answer for
// themselves: one question each, so that nothing in between refreshes a memo.
template <typename G>
void reuse(Case &c) {
  Rng &r = c.rng;
  c.describe("curves built one after the other in the same storage");
  std::optional<TCurve<G>> slot;
  std::optional<TCurveSegment<G>> seg;
  TCurve<G> kept;
  for (int i = 0; i < 8; ++i) {
    const Curve<G> k = gen_curve<G>(r, 2);
    feed_curve(c, k);
    const auto &p = k.pts[1];
    const LD sc = jscale(jet(p.point));
    TwoJetL<G> got = TwoJetL<G>::identity();
    const int how = static_cast<int>(r() % 3);
    const std::string s = cat("curve ", i, how == 0 ? " constructed" : how == 1 ? " assigned" : " as a segment");
    if (how == 0) got = slot.emplace(k.pts).point_at(p.time);
    else if (how == 1) got = (kept = TCurve<G>(k.pts)).point_at(p.time);
    else got = seg.emplace(k.pts[0].point, p.point).point_at(1);
    chk(c, "reused-storage-pose", maxdiff(mat4(got.frame_from_ref()), mat4(p.point.frame_from_ref())), 1e-11L * sc, s);
    chk(c, "reused-storage-velocity", maxdiff(got.d_frame_from_ref(), p.point.d_frame_from_ref()), 1e-10L * sc, s);
    chk(c, "reused-storage-acceleration", maxdiff(got.d2_frame_from_ref(), p.point.d2_frame_from_ref()), 1e-9L * sc, s);
    c.event("reused");
  }
}

// Points given as a list, as a vector and one by one make the same curve, and a bad one is refused wherever it stands.
template <typename G>
void lists(Case &c) {
  Rng &r = c.rng;
  const int n = static_cast<int>(r.range(2, 10));
  const Curve<G> k = gen_curve<G>(r, n);
  c.in(n);
  c.in(k.pts[0].time);
  feed(c, k.pts[0].point.frame_from_ref());
  const int split = static_cast<int>(r.range(0, n - 1));
  const bool spoil = r.chance(.5);
  c.describe(cat("lists of ", n, " points", spoil ? ", one of them bad" : ""));
  std::vector<Control<G>> v = k.pts;
  if (spoil) {
    const size_t at = 1 + static_cast<size_t>(r() % static_cast<uint64_t>(n - 1));
    switch (r() % 4) {
      case 0: v[at].time = v[at - 1].time; break;
      case 1: v[at].time = v[0].time - r.uniform(0, 2); break;
      case 2: v[at].time = std::nan(""); break;
      default: {
        G g = v[at].point.frame_from_ref();
        g.set_frames(Frame3::new_frame(), Frame3::new_frame());
        v[at].point.set_frame_from_ref(g);
        break;
      }
    }
  }
  std::vector<TCurve<G>> got;
  auto attempt = [&](const char *how, auto make) {
    if (spoil) {
      c.must_throw<AssertException>("list-rejects", [&] { make(); }, how);
      c.event("rejections_observed");
    } else {
      got.push_back(make());
    }
  };
  attempt("vector", [&] { return TCurve<G>(v); });
  with_list(v, [&](std::initializer_list<Control<G>> l) {
    attempt("list", [&] { return TCurve<G>(l); });
    attempt("appended list", [&] { TCurve<G> t; t.append(l); return t; });
  });
  const std::vector<Control<G>> head(v.begin(), v.begin() + split), tail(v.begin() + split, v.end());
  with_list(tail, [&](std::initializer_list<Control<G>> l) {
    attempt("appended tail", [&] { TCurve<G> t; for (const auto &p : head) t.append(p); t.append(l); return t; });
  });
  if (spoil) return;
  const double lo = v.front().time, hi = v.back().time;
  for (const auto &t : got) {
    c.check(t.control_pts().size() == v.size() && t.segments().size() + 1 == v.size() && t.start_time() == lo && t.end_time() == hi, "list-extent", cat(n, " points"));
    for (int q = 0; q < 5; ++q) {
      const double at = q == 0 ? lo : q == 1 ? hi : std::min(hi, r.uniform(lo, hi));
      const TwoJetL<G> a = t.point_at(at), b = k.curve.point_at(at);
      const LD size = 1 + b.d2_frame_from_ref().norm() + b.d_frame_from_ref().norm() + mat(b.frame_from_ref()).norm();
      chk(c, "list-point", std::max({maxdiff(mat(a.frame_from_ref()), mat(b.frame_from_ref())), maxdiff(a.d_frame_from_ref(), b.d_frame_from_ref()), maxdiff(a.d2_frame_from_ref(), b.d2_frame_from_ref())}), 1e-9L * size, cat(n, " points at ", at));
    }
    c.event("lists");
  }
}
}  // namespace

void body(Monitor &m) {
  m.section("lists-se3", 1200, 20000, [](Case &c) { lists<SE3>(c); });
  m.section("lists-so3", 800, 20000, [](Case &c) { lists<SO3>(c); });
  m.section("storage-reuse-se3", 600, 20000, [](Case &c) { reuse<SE3>(c); });
  m.section("storage-reuse-so3", 600, 20000, [](Case &c) { reuse<SO3>(c); });
  m.section("reference-se3", 4000, 200000, [](Case &c) { reference<SE3>(c); });
  m.section("reference-so3", 3000, 150000, [](Case &c) { reference<SO3>(c); });
  m.section("history-se3", 600, 20000, [](Case &c) { history<SE3>(c); });
  m.section("history-so3", 600, 20000, [](Case &c) { history<SO3>(c); });
  m.section("controls-se3", 1600, 60000, [](Case &c) { controls<SE3>(c); });
  m.section("controls-so3", 1600, 60000, [](Case &c) { controls<SO3>(c); });
  m.section("derivatives-se3", 1600, 60000, [](Case &c) { derivatives<SE3>(c); });
  m.section("derivatives-so3", 1600, 60000, [](Case &c) { derivatives<SO3>(c); });
  m.section("rejections-se3", 800, 10000, [](Case &c) { rejections<SE3>(c); });
  m.section("rejections-so3", 800, 10000, [](Case &c) { rejections<SO3>(c); });
  m.section("segment-se3", 1000, 10000, [](Case &c) { segment<SE3>(c); });
  m.section("segment-so3", 1000, 10000, [](Case &c) { segment<SO3>(c); });
  // Constant-twist motion is reproduced exactly.
  m.section("constant-twist", 2000, 60000, [](Case &c) {
    Rng &r = c.rng;
    V6 v;
    v.head<3>() = gen_unit(r) * r.uniform(0, 1.2);
    v.tail<3>() = gen_unit(r) * r.uniform(0, 5);
    const SE3 g0 = SE3(gen_so3(r), V3(gen_unit(r) * r.uniform(0, 10)));
    TCurve<SE3> k;
    TCurve<SO3> ko;
    double t = r.uniform(-3, 3);
    const double start = t;
    const int n = static_cast<int>(r.range(2, 7));
    std::vector<double> ts;
    for (int i = 0; i < n; ++i) {
      const M4l g = exp6(v.cast<LD>() * static_cast<LD>(t - start)) * mat(g0);
      const M3 R = g.block<3, 3>(0, 0).cast<double>();
      k.append({t, TwoJetL<SE3>(SE3(SO3(R), V3(g.block<3, 1>(0, 3).cast<double>())), v, V6::Zero())});
      ko.append({t, TwoJetL<SO3>(SO3(R), v.head<3>(), V3::Zero())});
      ts.push_back(t);
      t += r.uniform(.1, 2);
    }
    feed(c, v);
    c.in(start);
    c.describe(cat("twist ", str(v), " over ", n, " control points"));
    for (int q = 0; q < 10; ++q) {
      const double u = r.uniform(ts.front(), ts.back());
      const M4l want = exp6(v.cast<LD>() * static_cast<LD>(u - start)) * mat(g0);
      const auto p = k.point_at(u);
      chk(c, "twist-pose", maxdiff(mat(p.frame_from_ref()), want), 1e-9, str(v));
      chk(c, "twist-velocity", maxdiff(p.d_frame_from_ref(), v), 1e-8, str(v));
      chk(c, "twist-acceleration", maxdiff(p.d2_frame_from_ref(), V6::Zero().eval()), 1e-6, str(v));
      const auto po = ko.point_at(u);
      chk(c, "twist-rotation", maxdiff(mat(po.frame_from_ref()), want.block<3, 3>(0, 0).eval()), 1e-9, str(v));
      c.event("twist_samples");
    }
  });
  // Pure translations, and rotations about one axis: the curve is the unique
  // quintic with the given end conditions.
  m.section("commuting", 2000, 60000, [](Case &c) {
    Rng &r = c.rng;
    const V3 axis = gen_unit(r);
    const bool rot = r.chance(.5);
    const int n = static_cast<int>(r.range(2, 7));
    std::vector<double> ts;
    std::vector<Eigen::Matrix<double, 3, 3>> P;  // columns p, v, a along the axis (rotation: first row only)
    double t = r.uniform(-5, 5);
    TCurve<SE3> k;
    double ang = r.uniform(-1, 1);
    for (int i = 0; i < n; ++i) {
      M3 s;
      for (int j = 0; j < 9; ++j) s(j) = r.uniform(-2, 2);
      if (rot) s(0, 0) = ang;
      SE3 g;
      V6 d = V6::Zero(), d2 = V6::Zero();
      if (rot) {
        g = SE3(SO3(M3(rodrigues(s(0, 0), axis.cast<LD>()).cast<double>())));
        d.head<3>() = axis * s(0, 1);
        d2.head<3>() = axis * s(0, 2);
      } else {
        g = SE3(V3(s.col(0)));
        d.tail<3>() = s.col(1);
        d2.tail<3>() = s.col(2);
      }
      k.append({t, TwoJetL<SE3>(g, d, d2)});
      ts.push_back(t);
      P.push_back(s);
      c.in(t);
      feed(c, s);
      t += r.uniform(.1, 3);
      ang += r.uniform(-2.5, 2.5);
    }
    c.describe(cat(rot ? "rotations about one axis, " : "pure translations, ", n, " control points"));
    for (int q = 0; q < 10; ++q) {
      const size_t i = static_cast<size_t>(r() % (n - 1));
      const LD dt = static_cast<LD>(ts[i + 1]) - ts[i];
      const double at = ts[i] + (ts[i + 1] - ts[i]) * r.unit();
      const LD u = (static_cast<LD>(at) - ts[i]) / dt;
      const auto p = k.point_at(at);
      for (int row = 0; row < (rot ? 1 : 3); ++row) {
        const Quintic h = hermite(P[i](row, 0), P[i](row, 1) * dt, P[i](row, 2) * dt * dt, P[i + 1](row, 0), P[i + 1](row, 1) * dt, P[i + 1](row, 2) * dt * dt);
        LD x, v, a;
        eval(h, u, x, v, a);
        v /= dt;
        a /= dt * dt;
        if (rot) {
          chk(c, "quintic-rotation", maxdiff(mat(p.frame_from_ref().rotation()), rodrigues(x, axis.cast<LD>())), 1e-10, cat("at ", at));
          chk(c, "quintic-rotation-velocity", maxdiff(V3(p.d_frame_from_ref().head<3>()), (axis.cast<LD>() * v).eval()), 1e-9 * (1 + 1 / dt), cat("at ", at));
          chk(c, "quintic-rotation-acceleration", maxdiff(V3(p.d2_frame_from_ref().head<3>()), (axis.cast<LD>() * a).eval()), 1e-8 * (1 + 1 / dt / dt), cat("at ", at));
        } else {
          chk(c, "quintic-translation", std::fabs(p.frame_from_ref().translation()(row) - x), 1e-10, cat("at ", at));
          chk(c, "quintic-velocity", std::fabs(p.d_frame_from_ref()(3 + row) - v), 1e-9 * (1 + 1 / dt), cat("at ", at));
          chk(c, "quintic-acceleration", std::fabs(p.d2_frame_from_ref()(3 + row) - a), 1e-8 * (1 + 1 / dt / dt), cat("at ", at));
        }
      }
      c.event("quintic_samples");
    }
  });
  // A segment is fixed by its two control points: edits elsewhere do not move it,
  // and shifting time or changing units only relabels it.
  m.section("locality", 1000, 30000, [](Case &c) {
    Rng &r = c.rng;
    const int n = static_cast<int>(r.range(3, 7));
    const Curve<SE3> k = gen_curve<SE3>(r, n);
    feed_curve(c, k);
    c.describe(cat("locality over ", n, " control points"));
    const size_t i = static_cast<size_t>(r() % (k.pts.size() - 1));
    const double shift = r.uniform(-100, 100), unit = r.log_uniform(-1, 1);
    auto relabel = [&](const Control<SE3> &p) {
      return Control<SE3>{(p.time + shift) * unit, TwoJetL<SE3>(p.point.frame_from_ref(), p.point.d_frame_from_ref() / unit, p.point.d2_frame_from_ref() / (unit * unit))};
    };
    const TCurve<SE3> alone{k.pts[i], k.pts[i + 1]}, moved{relabel(k.pts[i]), relabel(k.pts[i + 1])};
    for (int q = 0; q < 6; ++q) {
      const double f = r.uniform(.001, .999);
      const double t = k.pts[i].time + f * (k.pts[i + 1].time - k.pts[i].time);
      const auto a = k.curve.point_at(t), b = alone.point_at(t);
      const LD sc = jscale(jet(a));
      chk(c, "curve-locality", diff(a, b), 1e-10L * sc, cat("segment ", i));
      auto m2 = moved.point_at((t + shift) * unit);
      m2.set_d_frame_from_ref(m2.d_frame_from_ref() * unit);
      m2.set_d2_frame_from_ref(m2.d2_frame_from_ref() * unit * unit);
      const double dt = k.pts[i + 1].time - k.pts[i].time;
      chk(c, "curve-time-units", diff(a, m2), 1e-9L * sc * (1 + 1 / dt) * (1 + 1 / dt) * (1 + 1 / dt), cat("segment ", i));
      c.event("relabelled_samples");
    }
  });
  // Normalised polynomial coefficients used by segments.
  m.section("coefficients", 2000, 50000, [](Case &c) {
    using Q = resim::curves::QuinticPolyCoeffs;
    const double u = c.rng.chance(.2) ? c.rng.pick<double>({0., 1., .5}) : c.rng.unit();
    c.in(u);
    c.describe(cat("u=", u));
    struct B {
      resim::curves::TwoJetPolyCoeffs got;
      Quintic q;
      const char *name;
    };
    const B bs[] = {{Q::dest_from_orig(u), hermite(0, 0, 0, 1, 0, 0), "pose"}, {Q::d_orig(u), hermite(0, 1, 0, 0, 0, 0), "start velocity"},
                    {Q::d_dest(u), hermite(0, 0, 0, 0, 1, 0), "end velocity"}, {Q::d2_orig(u), hermite(0, 0, 1, 0, 0, 0), "start acceleration"},
                    {Q::d2_dest(u), hermite(0, 0, 0, 0, 0, 1), "end acceleration"}};
    for (const auto &b : bs) {
      LD p, v, a;
      eval(b.q, u, p, v, a);
      chk(c, "coefficients", std::max({std::fabs(b.got.a - p), std::fabs(b.got.da - v), std::fabs(b.got.d2a - a)}), 1e-13, b.name);
      c.event("coefficient_sets");
    }
  });
}
VH_MAIN(body)
