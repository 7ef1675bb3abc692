// Interpolation follows the geodesic; distances between poses.
#include "geo.hh"
#include "resim/assert/assert.hh"

using namespace vh;
using resim::transforms::se3_distance;
using resim::transforms::se3_inverse_distance;

namespace {
void chk(Case &c, const char *key, LD err, double tol, const std::string &what) {
  c.event("max_error_over_tol", static_cast<double>(err / tol));
  c.check_msg(err <= tol, key, [&] { return cat(what, ": deviates by ", static_cast<double>(err), " (limit ", tol, ")"); });
}
double gen_fraction(Rng &r) {
  switch (r() % 5) {
    case 0: return r.pick<double>({0., 1., .5, .25, 2., -1., 1e-9, 1 - 1e-9});
    case 1: return r.chance(.7) ? r.uniform(-3, 4) : (r.chance(.5) ? -1 : 1) * r.log_uniform(0, 3);
    default: return r.unit();
  }
}
}  // namespace

void body(Monitor &m) {
  m.section("interp", 16000, 1000000, [](Case &c) {
    Rng &r = c.rng;
    const V6 a = gen_tangent(r);
    const M4l G = exp6(a.cast<LD>());
    const SE3 g(SO3(M3(G.block<3, 3>(0, 0).cast<double>())), V3(G.block<3, 1>(0, 3).cast<double>()));
    const double f = gen_fraction(r), h = gen_fraction(r);
    feed(c, a);
    c.in(f);
    c.describe(cat(str(a), " at fraction ", f));
    const std::string s = cat("alg=", str(a), " fraction ", f);
    const double sc = (1 + a.tail<3>().norm()) * (1 + std::fabs(f) + std::fabs(h));
    const double tol = 4e-12 * sc;
    // fraction f of the constant-velocity screw motion
    const M4l want = exp6((a * 1.0).cast<LD>() * static_cast<LD>(f));
    chk(c, "se3-interp", maxdiff(mat(g.interp(f)), want), tol, s);
    chk(c, "so3-interp", maxdiff(mat(g.rotation().interp(f)), want.block<3, 3>(0, 0).eval()), 1e-12 * (1 + std::fabs(f)), s);
    chk(c, "interp-zero", maxdiff(mat(g.interp(0)), M4l::Identity()), 1e-15, s);
    chk(c, "interp-one", maxdiff(mat(g.interp(1)), mat(g)), tol, s);
    chk(c, "interp-additive", maxdiff(mat(g.interp(f) * g.interp(h)), mat(g.interp(f + h))), 2 * tol, s);
    // Constant speed: the angle and the arc grow linearly.
    const double la = g.rotation().log().norm();
    if (std::fabs(f) * la < 3.1) {
      chk(c, "so3-interp-angle", std::fabs(g.rotation().interp(f).log().norm() - std::fabs(f) * la), 1e-11 * (1 + std::fabs(f)), s);
      chk(c, "arc-length-linear", std::fabs(g.interp(f).arc_length() - std::fabs(f) * g.arc_length()), 2 * tol, s);
    }
    const Frame3 A = Frame3::new_frame(), B = Frame3::new_frame(), C = Frame3::new_frame();
    SE3 fg = g;
    fg.set_frames(A, B);
    const SE3 i2 = fg.interp(f, C);
    chk(c, "se3-interp-framed", maxdiff(mat(i2), want), tol, s);
    c.check(i2.into() == A && i2.from() == C, "interp-frames", s);
    const SE3 i3 = fg.interp(f);
    chk(c, "se3-interp-framed", maxdiff(mat(i3), want), tol, s);
    c.check(i3.into() == A && i3.from() == B && !g.interp(f).is_framed(), "interp-frames", s);
    SO3 fr = g.rotation();
    fr.set_frames(A, B);
    chk(c, "so3-interp-framed", maxdiff(mat(fr.interp(f, C)), want.block<3, 3>(0, 0).eval()), 1e-12 * (1 + std::fabs(f)), s);
    c.event("interpolations", 8);
  });
  // Arc length is the length of the path traced by the origin: compare with a
  // fine polyline along the reference motion.
  m.section("arc-length", 4000, 100000, [](Case &c) {
    const V6 a = gen_tangent(c.rng);
    feed(c, a);
    c.describe(str(a));
    const M4l G = exp6(a.cast<LD>());
    const SE3 g(SO3(M3(G.block<3, 3>(0, 0).cast<double>())), V3(G.block<3, 1>(0, 3).cast<double>()));
    const double L = g.arc_length();
    const double sc = 1 + a.tail<3>().norm();
    // The body-frame velocity of the origin is constant along the geodesic.
    chk(c, "arc-length", std::fabs(L - a.tail<3>().norm()), 2e-11 * sc, str(a));
    c.check_msg(L >= g.translation().norm() - 1e-11 * sc, "arc-shorter-than-chord", [&] { return str(a); });
    chk(c, "arc-length-inverse", std::fabs(g.inverse().arc_length() - L), 1e-11 * sc, str(a));
    LD poly = 0;
    V3l prev = V3l::Zero();
    const int n = 200;
    for (int i = 1; i <= n; ++i) {
      const V3l p = exp6(a.cast<LD>() * (static_cast<LD>(i) / n)).block<3, 1>(0, 3);
      poly += (p - prev).norm();
      prev = p;
    }
    chk(c, "arc-length-polyline", std::fabs(L - poly), 2e-5 * static_cast<double>(poly) + 1e-9 * sc, str(a));
    c.event("arcs", 3);
  });
  m.section("distance", 16000, 500000, [](Case &c) {
    Rng &r = c.rng;
    const SE3 a = gen_se3(r), b = gen_se3(r), q = gen_se3(r);
    feed(c, a);
    feed(c, b);
    c.describe(cat(str(a), " vs ", str(b)));
    const double sc = scale(a) + scale(b) + scale(q);
    const double tol = 1e-13 * sc;
    const M4l rel = mat(a) * rigid_inverse(mat(b));
    const LD want = rel.block<3, 1>(0, 3).norm();
    const std::string s = cat(str(a), " ", str(b));
    chk(c, "se3-distance", std::fabs(se3_distance(a, b) - want), tol, s);
    chk(c, "se3-distance-symmetric", std::fabs(se3_distance(b, a) - want), tol, s);
    const M4l irel = rigid_inverse(mat(a)) * mat(b);
    const LD iwant = irel.block<3, 1>(0, 3).norm();
    chk(c, "se3-inverse-distance", std::fabs(se3_inverse_distance(a, b) - iwant), tol, s);
    chk(c, "se3-inverse-distance-symmetric", std::fabs(se3_inverse_distance(b, a) - iwant), tol, s);
    chk(c, "se3-distance-agree", std::fabs(se3_inverse_distance(a.inverse(), b.inverse()) - want), 2 * tol, s);
    // Independent of the reference frame
    chk(c, "se3-distance-reference", std::fabs(se3_distance(a * q, b * q) - want), 4 * tol, s);
    chk(c, "se3-inverse-distance-reference", std::fabs(se3_inverse_distance(q * a, q * b) - iwant), 4 * tol, s);
    chk(c, "se3-distance-self", se3_distance(a, a), tol, s);
    c.check(se3_inverse_distance(a, b) <= se3_inverse_distance(a, q) + se3_inverse_distance(q, b) + tol, "se3-triangle", s);
    c.event("distances", 8);
  });
  // The unit of length does not matter: everything scales with it, however small or large.
  m.section("units", 6000, 200000, [](Case &c) {
    Rng &r = c.rng;
    const double f = std::ldexp(1., static_cast<int>(r.range(-120, 60)));
    const V6 x = gen_tangent(r), y = gen_tangent(r);
    auto pose = [](const V6 &t) {
      const M4l g = exp6(t.cast<LD>());
      return SE3(SO3(M3(g.block<3, 3>(0, 0).cast<double>())), V3(g.block<3, 1>(0, 3).cast<double>()));
    };
    const SE3 a = pose(x), b = pose(y);
    auto in = [&](const SE3 &g) { return SE3(g.rotation(), V3(g.translation() * f)); };
    const double t = gen_fraction(r), sc = x.tail<3>().norm() + y.tail<3>().norm();
    feed(c, x);
    c.in(f);
    c.describe(cat("lengths in units of ", f));
    if (sc == 0) return c.trivial();
    const std::string s = cat("unit ", f, " ", str(a), " ", str(b), " fraction ", t);
    auto near = [&](const char *key, LD got, LD want, LD tol) { chk(c, key, std::fabs(got / f - want), static_cast<double>(tol), s); };
    near("arc-length-units", in(a).arc_length(), x.tail<3>().norm(), 2e-11 * x.tail<3>().norm() + 1e-30);
    near("distance-units", se3_distance(in(a), in(b)), (mat(a) * rigid_inverse(mat(b))).block<3, 1>(0, 3).norm(), 1e-13 * sc);
    near("inverse-distance-units", se3_inverse_distance(in(a), in(b)), (rigid_inverse(mat(a)) * mat(b)).block<3, 1>(0, 3).norm(), 1e-13 * sc);
    const V3l want = exp6(x.cast<LD>() * static_cast<LD>(t)).block<3, 1>(0, 3);
    chk(c, "interp-units", maxdiff((in(a).interp(t).translation() / f).eval(), want), 4e-12 * (1 + std::fabs(t)) * x.tail<3>().norm() + 1e-30, s);
    c.event("unit_changes", 4);
  });
  // Only poses that share their reference frame have a distance.
  m.section("distance-frames", 2000, 20000, [](Case &c) {
    Rng &r = c.rng;
    const Frame3 A = Frame3::new_frame(), B = Frame3::new_frame(), ref = Frame3::new_frame(), other = Frame3::new_frame();
    SE3 a = gen_se3(r), b = gen_se3(r);
    feed(c, a);
    feed(c, b);
    const double tol = 1e-13 * (scale(a) + scale(b));
    const LD want = (mat(a) * rigid_inverse(mat(b))).block<3, 1>(0, 3).norm();
    const LD iwant = (rigid_inverse(mat(a)) * mat(b)).block<3, 1>(0, 3).norm();
    const int k = static_cast<int>(r() % 6);
    // pattern: which reference frame each pose has; null is a reference too
    const Frame3 ra = k == 0 || k == 4 ? Frame3() : ref;
    const Frame3 rb = k == 1 || k == 4 ? Frame3() : k == 2 ? other : ref;
    const bool ok = ra == rb;
    const bool same_body = k == 5;
    auto framed = [&](SE3 g, const Frame3 &into, const Frame3 &from) {
      if (!into.is_null() && !from.is_null()) g.set_frames(into, from);
      return g;
    };
    const SE3 fa = framed(a, A, ra), fb = framed(b, same_body ? A : B, rb);
    const SE3 ia = framed(a, ra, A), ib = framed(b, rb, same_body ? A : B);
    const std::string s = cat("frame pattern ", k);
    if (ok) {
      chk(c, "framed-distance", std::fabs(se3_distance(fa, fb) - want), tol, s);
      chk(c, "framed-inverse-distance", std::fabs(se3_inverse_distance(ia, ib) - iwant), tol, s);
    } else {
      c.must_throw<resim::AssertException>("distance-frames", [&] { (void)se3_distance(fa, fb); }, s);
      c.must_throw<resim::AssertException>("distance-frames", [&] { (void)se3_distance(fb, fa); }, s);
      c.must_throw<resim::AssertException>("inverse-distance-frames", [&] { (void)se3_inverse_distance(ia, ib); }, s);
      c.must_throw<resim::AssertException>("inverse-distance-frames", [&] { (void)se3_inverse_distance(ib, ia); }, s);
    }
    c.event("distance_frame_verdicts");
  });
}
VH_MAIN(body)
