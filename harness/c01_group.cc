// SO3 and SE3 are groups acting on R^3, faithfully represented by matrices.
#include "geo.hh"

using namespace vh;

namespace {
constexpr double TOL = 1e-13;

void chk(Case &c, const char *key, LD err, double tol, const std::string &what) {
  c.event("max_error_over_tol", static_cast<double>(err / tol));
  c.check_msg(err <= tol, key, [&] { return cat(what, ": deviates by ", static_cast<double>(err), " (limit ", tol, ")"); });
}

// Any rotation, half turns included.
SO3 any_so3(Rng &r) {
  if (!r.chance(.08)) return gen_so3(r);
  const V3 u = gen_unit(r);
  return SO3(M3(2 * u * u.transpose() - M3::Identity()));
}
SE3 any_se3(Rng &r) {
  V3 t = gen_trans(r);
  if (r.chance(.05)) t = gen_unit(r) * r.log_uniform(6, 9);
  if (r.chance(.08)) t = gen_unit(r) * r.log_uniform(r.chance(.3) ? -150 : -20, -8);
  if (r.chance(.1)) t(static_cast<long>(r() % 3)) = 0;
  return SE3(any_so3(r), t);
}

void so3_laws(Case &c, const SO3 &a, const SO3 &b, const SO3 &d, const V3 &v) {
  const M3l A = mat(a), B = mat(b);
  const std::string s = cat("a=", str(a), " b=", str(b), " v=", str(v));
  chk(c, "so3-compose", maxdiff(mat(a * b), A * B), TOL, s);
  chk(c, "so3-assoc", maxdiff(mat((a * b) * d), mat(a * (b * d))), TOL, s);
  chk(c, "so3-inverse", maxdiff(mat(a * a.inverse()), M3l::Identity()), TOL, s);
  chk(c, "so3-inverse", maxdiff(mat(a.inverse() * a), M3l::Identity()), TOL, s);
  chk(c, "so3-inverse-order", maxdiff(mat((a * b).inverse()), mat(b.inverse() * a.inverse())), TOL, s);
  chk(c, "so3-identity", maxdiff(mat(a * SO3::identity()), A), 1e-15, s);
  chk(c, "so3-identity", maxdiff(mat(SO3::identity() * a), A), 1e-15, s);
  chk(c, "so3-identity", maxdiff(mat(SO3()), M3l::Identity()), 1e-15, s);
  const double vt = TOL * (1 + v.norm());
  const V3l want = A * v.cast<LD>();
  chk(c, "so3-action", maxdiff(a * v, want), vt, s);
  chk(c, "so3-rotate", maxdiff(a.rotate(v), want), vt, s);
  chk(c, "so3-action-compose", maxdiff((a * b) * v, a * (b * v)), 2 * vt, s);
  c.check_msg(std::fabs((a * v).norm() - v.norm()) <= vt, "so3-isometry", [&] { return s; });
  const Eigen::Quaterniond q = a.quaternion();
  c.check_msg(std::fabs(q.norm() - 1) <= 1e-12, "so3-quaternion-unit", [&] { return cat(s, " |q|=", q.norm()); });
  chk(c, "so3-quaternion", maxdiff(q.toRotationMatrix(), A), 1e-12, s);
  chk(c, "so3-quaternion", maxdiff(mat(SO3(q)), A), 1e-12, s);
  chk(c, "so3-from-quaternion", maxdiff(mat(SO3(Eigen::Quaterniond(-q.w(), -q.x(), -q.y(), -q.z()))), A), 1e-12, s);
  c.event("so3_laws", 14);
}

void se3_laws(Case &c, const SE3 &a, const SE3 &b, const SE3 &d, const V3 &v) {
  const M4l A = mat(a), B = mat(b);
  const double sc = scale(a) + scale(b) + scale(d) + v.norm();
  const double tol = TOL * sc;
  const std::string s = cat("a=", str(a), " b=", str(b), " v=", str(v));
  chk(c, "se3-compose", maxdiff(mat(a * b), A * B), tol, s);
  chk(c, "se3-assoc", maxdiff(mat((a * b) * d), mat(a * (b * d))), tol, s);
  chk(c, "se3-inverse", maxdiff(mat(a * a.inverse()), M4l::Identity()), tol, s);
  chk(c, "se3-inverse", maxdiff(mat(a.inverse() * a), M4l::Identity()), tol, s);
  chk(c, "se3-inverse-order", maxdiff(mat((a * b).inverse()), mat(b.inverse() * a.inverse())), tol, s);
  chk(c, "se3-identity", maxdiff(mat(a * SE3::identity()), A), 1e-15 * sc, s);
  chk(c, "se3-identity", maxdiff(mat(SE3::identity() * a), A), 1e-15 * sc, s);
  chk(c, "se3-identity", maxdiff(mat(SE3()), M4l::Identity()), 1e-15, s);
  // Translations are accurate relative to the translations involved, however small.
  const double an = a.translation().norm(), bn = b.translation().norm();
  chk(c, "se3-compose-translation", maxdiff((a * b).translation(), (A * B).block<3, 1>(0, 3).eval()), TOL * (an + bn) + 1e-300, s);
  chk(c, "se3-inverse-translation", maxdiff(a.inverse().translation(), rigid_inverse(A).block<3, 1>(0, 3).eval()), TOL * an + 1e-300, s);
  const V3l want = A.block<3, 3>(0, 0) * v.cast<LD>() + A.block<3, 1>(0, 3);
  chk(c, "se3-action-translation", maxdiff(a * v, want), TOL * (an + v.norm()) + 1e-300, s);
  chk(c, "se3-action", maxdiff(a * v, want), tol, s);
  chk(c, "se3-rotate", maxdiff(a.rotate(v), (A.block<3, 3>(0, 0) * v.cast<LD>()).eval()), tol, s);
  chk(c, "se3-action-compose", maxdiff((a * b) * v, a * (b * v)), 2 * tol, s);
  const SE3 rot_only(a.rotation()), trans_only(a.translation());
  M4l R = A, T = M4l::Identity();
  R.block<3, 1>(0, 3).setZero();
  T.block<3, 1>(0, 3) = A.block<3, 1>(0, 3);
  chk(c, "se3-rotation-only", maxdiff(mat(rot_only), R), 4e-15, s);
  chk(c, "se3-translation-only", maxdiff(mat(trans_only), T), 4e-15 * sc, s);
  chk(c, "se3-factor", maxdiff(mat(trans_only * rot_only), A), 1e-15 * sc, s);
  c.event("se3_laws", 14);
}

template <typename G>
void approx_laws(Case &c, const G &a) {
  c.check_msg(a.is_approx(a) && a.is_approx_transform(a), "approx-reflexive", [&] { return str(a); });
}
}  // namespace

void body(Monitor &m) {
  m.section("so3-laws", 16000, 1000000, [](Case &c) {
    const SO3 a = any_so3(c.rng), b = any_so3(c.rng), d = any_so3(c.rng);
    const V3 v = gen_trans(c.rng);
    feed(c, a);
    feed(c, b);
    c.describe(cat("SO3 laws at ", str(a)));
    so3_laws(c, a, b, d, v);
  });
  m.section("se3-laws", 16000, 1000000, [](Case &c) {
    const SE3 a = any_se3(c.rng), b = any_se3(c.rng), d = any_se3(c.rng);
    const V3 v = gen_trans(c.rng);
    feed(c, a);
    feed(c, b);
    c.describe(cat("SE3 laws at ", str(a)));
    se3_laws(c, a, b, d, v);
  });
  m.section("constructors", 8000, 400000, [](Case &c) {
    const V3 u = gen_unit(c.rng);
    const double ang = (c.rng.chance(.5) ? 1 : -1) * (c.rng.chance(.2) ? c.rng.uniform(0, 50) : gen_angle(c.rng));
    feed(c, u);
    c.in(ang);
    c.describe(cat("rotation by ", ang, " about ", str(u)));
    const M3l want = rodrigues(ang, u.cast<LD>());
    const std::string s = cat("angle ", ang, " axis ", str(u));
    const double tol = 4e-15 * (1 + std::fabs(ang));
    chk(c, "so3-from-angle-axis", maxdiff(mat(SO3(ang, u)), want), tol, s);
    chk(c, "so3-from-angle-axis", maxdiff(mat(SO3(Eigen::AngleAxisd(ang, u))), want), tol, s);
    const V3 qv = u * std::sin(ang / 2);
    chk(c, "so3-from-quaternion", maxdiff(mat(SO3(Eigen::Quaterniond(std::cos(ang / 2), qv.x(), qv.y(), qv.z()))), want), tol, s);
    const M3 md = want.cast<double>();
    chk(c, "so3-from-matrix", maxdiff(mat(SO3(md)), md), 4e-15, s);
    const V3 t = gen_trans(c.rng);
    const SE3 g(SO3(ang, u), t);
    c.check_msg(g.translation() == t && maxdiff(mat(g.rotation()), want) <= tol, "se3-parts", [&] { return s; });
    c.event("constructors", 5);
  });
  m.section("approx", 8000, 200000, [](Case &c) {
    const SE3 a = gen_se3(c.rng);
    feed(c, a);
    c.describe(cat("approximate equality at ", str(a)));
    approx_laws(c, a);
    approx_laws(c, a.rotation());
    const double da = c.rng.log_uniform(-10, 0.4);
    c.in(da);
    const SO3 near_id(exp3((gen_unit(c.rng) * da).cast<LD>()).cast<double>());
    const SO3 r2(near_id.rotation_matrix() * a.rotation().rotation_matrix());
    c.check_msg(!a.rotation().is_approx(r2) && !a.rotation().is_approx_transform(r2) && !r2.is_approx_transform(a.rotation()),
                "so3-approx-too-loose", [&] { return cat("rotations ", da, " rad apart compare equal at ", str(a)); });
    const SE3 g2(r2, a.translation());
    c.check_msg(!a.is_approx(g2) && !g2.is_approx_transform(a), "se3-approx-ignores-rotation", [&] { return cat("poses ", da, " rad apart compare equal at ", str(a)); });
    const double rel = c.rng.log_uniform(-10, 1);
    const double base = std::max(a.translation().norm(), 1e-20);
    const SE3 g3(a.rotation(), a.translation() + gen_unit(c.rng) * base * rel);
    c.check_msg(!a.is_approx(g3) && !g3.is_approx_transform(a), "se3-approx-ignores-translation", [&] { return cat("translations ", base * rel, " apart compare equal at ", str(a)); });
    // Rounding noise does not break equality.
    M3 noisy = a.rotation().rotation_matrix();
    for (int i = 0; i < 9; ++i) noisy(i) *= 1 + 2.2e-16 * static_cast<double>(c.rng.range(-2, 2));
    c.check_msg(a.rotation().is_approx_transform(SO3(noisy)), "so3-approx-too-tight", [&] { return str(a); });
    V3 shaky = a.translation() * (c.rng.chance(.3) ? c.rng.log_uniform(-30, 30) : 1.0);
    const SE3 still(a.rotation(), shaky);
    for (int i = 0; i < 3; ++i) shaky(i) *= 1 + 2.2e-16 * static_cast<double>(c.rng.range(-2, 2));
    c.check_msg(still.is_approx_transform(SE3(SO3(noisy), shaky)) && still.is_approx(SE3(SO3(noisy), shaky)), "se3-approx-too-tight",
                [&] { return cat("rounding noise on translation ", str(shaky)); });
    c.event("approx_decisions", 10);
  });
  // Long histories of group operations against the same history in 4x4 matrices.
  m.section("chains", 240, 4000, [](Case &c) {
    SE3 g = gen_se3(c.rng);
    M4l w = mat(g);
    const int n = static_cast<int>(c.rng.range(50, 2000));
    c.in(n);
    feed(c, g);
    c.describe(cat("chain of ", n, " operations"));
    LD sc = static_cast<LD>(scale(g));
    for (int i = 0; i < n; ++i) {
      const SE3 h(gen_so3(c.rng), gen_unit(c.rng) * c.rng.uniform(0, 10));
      switch (c.rng() % 4) {
        case 0: g = g * h; w = w * mat(h); break;
        case 1: g = h * g; w = mat(h) * w; break;
        case 2: g = g.inverse(); w = rigid_inverse(w); break;
        default: g = g * h.inverse(); w = w * rigid_inverse(mat(h)); break;
      }
      sc = std::max(sc, 1 + w.block<3, 1>(0, 3).norm());
      const double tol = static_cast<double>(1e-15L * sc * (i + 10));
      c.check_msg(maxdiff(mat(g), w) <= tol, "chain-diverges", [&] { return cat("after ", i + 1, " operations of ", n); });
      c.event("chain_steps");
    }
    const M3l R = w.block<3, 3>(0, 0);
    const M3l gr = mat(g.rotation());
    c.check_msg(maxdiff((gr * gr.transpose()).eval(), M3l::Identity()) < 1e-11 && std::fabs(gr.determinant() - 1) < 1e-11, "chain-not-rotation", [&] { return cat("after ", n); });
    (void)R;
  });
}
VH_MAIN(body)
