// Exponential and logarithm of SO3 and SE3.
#include "geo.hh"

using namespace vh;

namespace {
void chk(Case &c, const char *key, LD err, double tol, const std::string &what) {
  c.event("max_error_over_tol", static_cast<double>(err / tol));
  c.check_msg(err <= tol, key, [&] { return cat(what, ": deviates by ", static_cast<double>(err), " (limit ", tol, ")"); });
}

void explog(Case &c, const V6 &a) {
  const V3 w = a.head<3>();
  const V3 v = a.tail<3>();
  const double ang = w.norm();
  const std::string s = cat("tangent ", str(a));
  const double sc = 1 + v.norm();
  // exp against the matrix exponential
  const M4l want = exp6(a.cast<LD>());
  const SO3 r = SO3::exp(w);
  const SE3 g = SE3::exp(a);
  const double rt = 1e-14 * (1 + ang);
  chk(c, "so3-exp", maxdiff(mat(r), want.block<3, 3>(0, 0).eval()), rt, s);
  chk(c, "se3-exp-rotation", maxdiff(mat(g.rotation()), want.block<3, 3>(0, 0).eval()), rt, s);
  chk(c, "se3-exp-translation", maxdiff(g.translation(), want.block<3, 1>(0, 3).eval()), 5e-13 * sc * (1 + ang), s);
  const double vn = a.tail<3>().norm();
  chk(c, "se3-exp-translation-relative", maxdiff(g.translation(), want.block<3, 1>(0, 3).eval()), 5e-13 * vn * (1 + ang) + 1e-300, s);
  c.check(!r.is_framed() && !g.is_framed(), "exp-framed", "exp without frames produced a framed element");
  // log inverts exp
  const V3 lw = r.log();
  const V6 la = g.log();
  chk(c, "so3-log-angle", std::max<LD>(0, lw.norm() - PIL), 1e-14, s);
  chk(c, "so3-exp-log", maxdiff(mat(SO3::exp(lw)), mat(r)), 2e-14, s);
  chk(c, "se3-exp-log", maxdiff(mat(SE3::exp(la)), mat(g)), 2e-12 * sc, s);
  chk(c, "se3-log-rotation", maxdiff(la.head<3>(), lw), 1e-14, s);
  if (ang < PI - 1e-7) {
    chk(c, "so3-log-exp", maxdiff(lw, w), 2e-14 * (1 + 1e-2 / (PI - ang)), s);
    chk(c, "se3-log-exp", maxdiff(la, a), 4e-12 * sc, s);
    chk(c, "se3-log-exp-relative", maxdiff(la.tail<3>().eval(), a.tail<3>().eval()), 4e-12 * vn * (1 + 1e-2 / (PI - ang)) + 1e-300, s);
    // The inverse is the negated tangent.
    chk(c, "so3-log-inverse", maxdiff(r.inverse().log(), -w), 2e-14 * (1 + 1e-2 / (PI - ang)), s);
    chk(c, "se3-exp-negated", maxdiff(mat(SE3::exp(-a)), mat(g.inverse())), 2e-12 * sc, s);
    c.event("log_of_exp");
  }
  c.event("exp_log_pairs");
}
}  // namespace

void body(Monitor &m) {
  m.section("exp-log", 24000, 2000000, [](Case &c) {
    V6 a = gen_tangent(c.rng);
    if (c.rng.chance(.05)) a.tail<3>() *= c.rng.log_uniform(-40, -6);
    feed(c, a);
    c.describe(str(a));
    if (a.isZero(0)) c.trivial();
    explog(c, a);
  });
  m.section("tiny-angles", 6000, 400000, [](Case &c) {
    V6 a;
    a.head<3>() = gen_unit(c.rng) * (c.rng.chance(.1) ? c.rng.log_uniform(-300, -12) : c.rng.log_uniform(-12, -1));
    a.tail<3>() = gen_trans(c.rng);
    feed(c, a);
    c.describe(str(a));
    explog(c, a);
    // Relative accuracy of a small rotation survives the round trip.
    const V3 w = a.head<3>();
    const double n = w.norm();
    if (n > 1e-150) {
      const V3 back = SO3::exp(w).log();
      c.check_msg((back - w).norm() <= 1e-9 * n, "so3-log-exp-relative", [&] { return cat(str(w), " came back as ", str(back)); });
    }
    c.event("tiny");
  });
  m.section("near-pi", 6000, 400000, [](Case &c) {
    V6 a;
    a.head<3>() = gen_unit(c.rng) * (PI - c.rng.log_uniform(-16, -5));
    a.tail<3>() = gen_trans(c.rng);
    feed(c, a);
    c.describe(str(a));
    explog(c, a);
    c.event("near_pi");
  });
  // Exact half turns, built without exp.
  m.section("half-turn", 2000, 100000, [](Case &c) {
    const V3 u = gen_unit(c.rng);
    const M3 R = 2 * u * u.transpose() - M3::Identity();
    const V3 t = gen_trans(c.rng);
    feed(c, u);
    feed(c, t);
    c.describe(cat("half turn about ", str(u)));
    const SO3 r(R);
    const V3 w = r.log();
    const std::string s = cat("half turn about ", str(u), " log ", str(w));
    chk(c, "half-turn-angle", std::fabs(w.norm() - PIL), 1e-9, s);
    chk(c, "half-turn-axis", (w.normalized().cross(u)).norm(), 1e-9, s);
    chk(c, "half-turn-exp-log", maxdiff(mat(SO3::exp(w)), R), 1e-9, s);
    const SE3 g(r, t);
    chk(c, "half-turn-se3", maxdiff(mat(SE3::exp(g.log())), mat(g)), 1e-9 * (1 + t.norm()), s);
    c.event("half_turns");
  });
  // Angles beyond pi wrap but still exponentiate correctly.
  m.section("large-angle", 4000, 200000, [](Case &c) {
    V6 a;
    a.head<3>() = gen_unit(c.rng) * (c.rng.chance(.6) ? c.rng.uniform(PI, 60) : c.rng.log_uniform(1, 5));
    a.tail<3>() = gen_trans(c.rng);
    feed(c, a);
    c.describe(str(a));
    explog(c, a);
  });
  // One-parameter subgroups: exp((s+t)a) = exp(sa) exp(ta).
  m.section("one-parameter", 6000, 300000, [](Case &c) {
    const V6 a = gen_tangent(c.rng);
    const double s = c.rng.uniform(-2, 2), t = c.rng.uniform(-2, 2);
    feed(c, a);
    c.in(s);
    c.describe(cat(str(a), " at ", s, " and ", t));
    const double tol = 4e-12 * (1 + a.tail<3>().norm());
    chk(c, "se3-one-parameter", maxdiff(mat(SE3::exp((s + t) * a)), mat(SE3::exp(s * a) * SE3::exp(t * a))), tol, str(a));
    const V3 w = a.head<3>();
    chk(c, "so3-one-parameter", maxdiff(mat(SO3::exp((s + t) * w)), mat(SO3::exp(s * w) * SO3::exp(t * w))), 4e-14, str(a));
    c.event("subgroup_laws", 2);
  });
  // Pure translations and framed overloads.
  m.section("framed-and-pure", 2000, 50000, [](Case &c) {
    const Frame3 A = Frame3::new_frame(), B = Frame3::new_frame();
    const V6 a = gen_tangent(c.rng);
    feed(c, a);
    c.describe(str(a));
    const SE3 g = SE3::exp(a), f1 = SE3::exp(a, A, B), f2 = SE3::exp(a, Frame3(A), Frame3(B)), f3 = SE3::exp(a, A, Frame3(B)), f4 = SE3::exp(a, Frame3(A), B);
    const V3 w = a.head<3>();
    const SO3 r = SO3::exp(w), r1 = SO3::exp(w, A, B), r2 = SO3::exp(w, Frame3(A), Frame3(B)), r3 = SO3::exp(w, A, Frame3(B)), r4 = SO3::exp(w, Frame3(A), B);
    for (const SE3 *f : {&f1, &f2, &f3, &f4}) {
      chk(c, "se3-exp-framed", maxdiff(mat(*f), mat(g)), 1e-13 * scale(g), str(a));
      c.check(f->into() == A && f->from() == B, "exp-frames", "framed exp carries the wrong frames");
      chk(c, "se3-log-framed", maxdiff(f->log(), g.log()), 1e-13 * scale(g), str(a));
    }
    for (const SO3 *f : {&r1, &r2, &r3, &r4}) {
      chk(c, "so3-exp-framed", maxdiff(mat(*f), mat(r)), 1e-14, str(a));
      c.check(f->into() == A && f->from() == B, "exp-frames", "framed exp carries the wrong frames");
    }
    V6 t = V6::Zero();
    t.tail<3>() = gen_trans(c.rng);
    const SE3 pure = SE3::exp(t);
    c.check(maxdiff(pure.translation(), t.tail<3>().eval()) <= 1e-15 * (1 + t.norm()) && maxdiff(mat(pure.rotation()), M3l::Identity()) == 0, "pure-translation", str(t));
    const V6 lt = SE3(V3(t.tail<3>())).log();
    chk(c, "pure-translation-log", maxdiff(lt, t), 1e-15 * (1 + t.norm()), str(t));
    c.event("framed_exponentials", 8);
  });
}
VH_MAIN(body)
