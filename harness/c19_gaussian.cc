// Gaussian sampling and sample statistics.
#include "geo.hh"
#include "resim/assert/assert.hh"
#include "resim/math/multivariate_gaussian.hh"
#include "resim/math/sample_statistics.hh"
#include "resim/time/random_duration.hh"

using namespace vh;
using resim::AssertException;
using resim::math::Gaussian;
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;
using Matl = Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic>;

namespace {
void feedm(Case &c, const Mat &m) {
  for (long i = 0; i < m.size(); ++i) c.in(double(m(i)));
}
struct Spec {
  Vec mu;
  Mat cov;
  Mat root;  // d x rank, cov = root root^T
  int d = 0, rank = 0;
};
Spec gen(Rng &r) {
  Spec s;
  s.d = static_cast<int>(r.chance(.1) ? r.range(7, 16) : r.range(1, 6));
  s.rank = r.chance(.5) ? s.d : static_cast<int>(r.range(1, s.d));
  const double sd = r.chance(.5) ? 1 : r.log_uniform(-3, 4);
  s.root = Mat(s.d, s.rank);
  if (r.chance(.2)) {
    s.rank = 1;  // fully correlated, equal variances
    s.root = Mat::Constant(s.d, 1, r.uniform(.5, 2) * sd);
  } else {
    for (long i = 0; i < s.root.size(); ++i) s.root(i) = r.normal() * sd;
    if (r.chance(.15) && s.d == s.rank) s.root = Vec(s.root.diagonal()).asDiagonal();
  }
  if (r.chance(.04)) {
    s.rank = 0;  // a certain value
    s.root = Mat::Zero(s.d, 1);
  } else if (r.chance(.1) && s.d > 1) {
    s.root.row(static_cast<long>(r() % s.d)).setZero();  // one certain component
    s.rank = std::min(s.rank, s.d - 1);
  }
  s.cov = s.root * s.root.transpose();
  s.cov = ((s.cov + s.cov.transpose()) / 2).eval();
  s.mu = Vec(s.d);
  for (int i = 0; i < s.d; ++i) s.mu(i) = r.normal() * r.pick<double>({0, 1, 100}) * sd;
  return s;
}
std::string show(const Spec &s) { return cat("dim ", s.d, " rank ", s.rank, " cov00 ", s.cov(0, 0)); }
}  // namespace

void body(Monitor &m) {
  m.section("construct", 4000, 200000, [](Case &c) {
    const Spec s = gen(c.rng);
    feedm(c, s.cov);
    feedm(c, s.mu);
    c.describe(show(s));
    const double big = s.cov.cwiseAbs().maxCoeff() * s.d;
    std::unique_ptr<Gaussian> g;
    try {
      g = std::make_unique<Gaussian>(s.mu, s.cov);
    } catch (const AssertException &e) {
      c.fail("rejects-valid", cat(show(s), ": ", e.what()));
    }
    c.check(g->dimensionality() == static_cast<unsigned>(s.d) && g->mu() == s.mu && g->cov() == s.cov, "parameters", show(s));
    const Mat rebuilt = g->eigenvectors() * g->eigenvalues().asDiagonal() * g->eigenvectors().transpose();
    c.check_msg((rebuilt - s.cov).cwiseAbs().maxCoeff() <= 1e-12 * big, "eigen-decomposition", [&] { return show(s); });
    c.check(g->eigenvalues().minCoeff() >= 0, "negative-eigenvalue", show(s));
    c.check((g->eigenvectors().transpose() * g->eigenvectors() - Mat::Identity(s.d, s.d)).cwiseAbs().maxCoeff() < 1e-12, "eigenvectors-orthonormal", show(s));
    const Vec sq = g->sqrt_eigenvalues_mat().diagonal();
    c.check((sq.cwiseProduct(sq) - g->eigenvalues()).cwiseAbs().maxCoeff() <= 1e-12 * big && sq.minCoeff() >= 0, "sqrt-eigenvalues", show(s));
    c.event("valid_covariances");
    if (s.rank < s.d) c.event("singular_covariances");
  });
  m.section("reject", 3000, 100000, [](Case &c) {
    Rng &r = c.rng;
    Spec s = gen(r);
    const double big = s.cov.cwiseAbs().maxCoeff() * s.d;
    std::string what;
    switch (r() % 5) {
      case 0: {
        s.mu = Vec::Zero(s.d + (r.chance(.5) ? 1 : -1));
        if (s.mu.size() == 0) s.mu = Vec::Zero(2);
        what = "mean of another dimension";
        break;
      }
      case 1: {
        const Mat wide = Mat::Identity(s.d, s.d + 1);
        s.cov = r.chance(.5) ? wide : Mat(wide.transpose());
        what = "covariance not square";
        break;
      }
      case 2: {
        if (s.d == 1) s = Spec{Vec::Zero(2), Mat::Identity(2, 2), {}, 2, 2};
        const long i = static_cast<long>(r() % s.d);
        s.cov(i, (i + 1) % s.d) += (r.chance(.5) ? 1 : -1) * (s.cov.norm() > 0 ? s.cov.norm() : 1) * r.log_uniform(-9, 1);
        what = "covariance not symmetric";
        break;
      }
      case 3: {
        // one clearly negative direction
        Vec u(s.d);
        for (int i = 0; i < s.d; ++i) u(i) = r.normal();
        u.normalize();
        const double q = u.dot(s.cov * u);
        s.cov -= (q + (big + 1e-9) * r.log_uniform(-5, 1)) * u * u.transpose();
        s.cov = ((s.cov + s.cov.transpose()) / 2).eval();
        what = "covariance with a negative direction";
        break;
      }
      default: {
        const double x = r.pick<double>({std::nan(""), HUGE_VAL, -HUGE_VAL});
        const long i = static_cast<long>(r() % s.d), j = static_cast<long>(r() % s.d);
        s.cov(i, j) = s.cov(j, i) = x;
        what = "covariance with a number that is not finite";
      }
    }
    feedm(c, s.cov);
    feedm(c, s.mu);
    c.describe(what);
    c.must_throw<AssertException>(cat("accepts:", what).c_str(), [&] { Gaussian g(s.mu, s.cov); }, cat(what, " ", show(s)));
  });
  // Samples follow the distribution. Everything is expressed in standard
  // deviations; a limit of 7 is out of reach of chance.
  m.section("sample", 160, 4000, [](Case &c) {
    const Spec s = gen(c.rng);
    feedm(c, s.cov);
    feedm(c, s.mu);
    c.describe(show(s));
    Gaussian g(s.mu, s.cov), twin(s.mu, s.cov);
    const double big = s.cov.cwiseAbs().maxCoeff() * s.d;
    // several draws of assorted sizes
    std::vector<Mat> parts;
    long n = 0;
    const long total = 6000;
    const long biggest = c.rng.chance(.1) ? 30000 : 3000;
    while (n < total) {
      const unsigned k = static_cast<unsigned>(c.rng.chance(.3) ? 1 : c.rng.chance(.05) ? 0 : c.rng.range(1, biggest));
      // A copy goes on where the original stands, and on its own.
      if (c.rng.chance(.15)) {
        Gaussian copy(g), other(g);
        const Mat p = copy.samples(5);
        c.check(p == other.samples(5), "reproducible", "two copies gave different samples");
        c.event("copies");
      }
      if (k == 1 && c.rng.chance(.5)) {
        parts.push_back(g.sample());
        c.check(parts.back().rows() == 1 && parts.back().cols() == s.d, "sample-shape", show(s));
        const Mat t = twin.samples(1);
        c.check(t == parts.back(), "reproducible", "equal Gaussians gave different samples for equal draws");
      } else {
        parts.push_back(g.samples(k));
        c.check(parts.back().rows() == k && parts.back().cols() == s.d, "sample-shape", show(s));
        c.check(twin.samples(k) == parts.back(), "reproducible", "equal Gaussians gave different samples for equal draws");
      }
      n += parts.back().rows();
    }
    Mat all(n, s.d);
    long at = 0;
    for (const Mat &p : parts) {
      all.middleRows(at, p.rows()) = p;
      at += p.rows();
    }
    c.check(all.allFinite(), "sample-finite", show(s));
    if (s.cov(0, 0) > 0) {
      std::set<double> seen;
      for (long i = 0; i < n; ++i) seen.insert(all(i, 0));
      c.check(static_cast<double>(seen.size()) > .99 * n, "sample-repeats", cat(show(s), ": only ", seen.size(), " distinct of ", n));
    }
    const Mat z = all.rowwise() - s.mu.transpose();
    const Vec mean = z.colwise().mean();
    const Mat second = z.transpose() * z / static_cast<double>(n);
    const double N = static_cast<double>(n);
    auto along = [&](const Vec &u, const char *what) {
      const double var = std::max(0.0, (s.root.transpose() * u).squaredNorm());
      const double floor = 1e-10 * big;
      const double dev = std::fabs(u.dot(mean));
      c.check_msg(dev <= 7 * std::sqrt(var / N) + std::sqrt(floor) * 1e-1 + 1e-12 * s.mu.norm(), "sample-mean", [&] { return cat(show(s), " along ", what, ": mean off by ", dev, " with sd ", std::sqrt(var)); });
      const double got = u.dot(second * u);
      c.check_msg(std::fabs(got - var) <= 7 * var * std::sqrt(2 / N) + floor, "sample-covariance", [&] { return cat(show(s), " along ", what, ": variance ", got, " instead of ", var); });
      // Shape: fourth moment and lag-one correlation of the projection.
      if (var > 1e-6 * big) {
        const Vec p = z * u / std::sqrt(var);
        const double m4 = p.array().pow(4).mean();
        c.check_msg(std::fabs(m4 - 3) <= 7 * std::sqrt(96 / N), "sample-shape-kurtosis", [&] { return cat(show(s), " along ", what, ": fourth moment ", m4); });
        const double m3 = p.array().pow(3).mean();
        c.check_msg(std::fabs(m3) <= 7 * std::sqrt(15 / N), "sample-skew", [&] { return cat(show(s), " along ", what, ": third moment ", m3); });
        const double lag = p.head(n - 1).dot(p.tail(n - 1)) / (N - 1);
        c.check_msg(std::fabs(lag) <= 7 / std::sqrt(N), "sample-independence", [&] { return cat(show(s), " along ", what, ": lag-one correlation ", lag); });
      }
      c.event("directions_checked");
    };
    for (int i = 0; i < s.d; ++i) along(Vec::Unit(s.d, i), "axis");
    Eigen::SelfAdjointEigenSolver<Mat> es(s.cov);
    for (int i = 0; i < s.d; ++i) along(es.eigenvectors().col(i), "principal axis");
    for (int i = 0; i < 3; ++i) {
      Vec u(s.d);
      for (int k = 0; k < s.d; ++k) u(k) = c.rng.normal();
      along(u.normalized(), "random direction");
    }
    c.event("samples_drawn", N);
  });
  // One very large draw does what many small ones do.
  m.section("large-draw", 3, 24, [](Case &c) {
    const Spec s = gen(c.rng);
    feedm(c, s.cov);
    c.describe(cat("large draw, ", show(s)));
    Gaussian g(s.mu, s.cov), twin(s.mu, s.cov);
    const unsigned k = static_cast<unsigned>(c.rng.range(100001, 150000));
    for (int i = 0; i < 2; ++i) {
      const Mat a = g.samples(k), b = twin.samples(k);
      c.check(a.rows() == k && a.cols() == s.d && a.allFinite(), "sample-shape", show(s));
      c.check(a == b, "reproducible", "equal Gaussians gave different samples for equal large draws");
      const Vec mean = (a.rowwise() - s.mu.transpose()).colwise().mean();
      for (int j = 0; j < s.d; ++j)
        c.check_msg(std::fabs(mean(j)) <= 7 * std::sqrt(s.cov(j, j) / k) + 1e-6 * std::sqrt(s.cov.cwiseAbs().maxCoeff()) + 1e-12 * s.mu.norm(), "sample-mean", [&] { return cat(show(s), " large draw: mean off by ", mean(j)); });
      c.mon.tick();
    }
    c.event("large_draws", 2);
  });
  m.section("statistics", 4000, 200000, [](Case &c) {
    Rng &r = c.rng;
    const bool huge = c.index % 1000 == 7;
    const long n = huge ? r.range(100001, 200000) : r.chance(.2) ? r.range(1, 3) : r.chance(.03) ? r.range(200, 6000) : r.range(2, 200), d = huge ? r.range(1, 2) : r.range(1, 8);
    if (huge) c.event("large_tables");
    Mat x(n, d);
    const double off = r.pick<double>({0, 0, 1, 1e4}), sd = r.log_uniform(-3, 3);
    for (long i = 0; i < x.size(); ++i) x(i) = off + sd * r.normal();
    feedm(c, x);
    c.describe(cat(n, " samples of dimension ", d));
    const Matl xl = x.cast<LD>();
    Matl mu = xl.colwise().sum() / static_cast<LD>(n);
    const Vec gm = resim::math::mean(x);
    const double sc = x.cwiseAbs().maxCoeff() + 1e-300;
    c.check(gm.size() == d, "mean-size", cat(gm.size()));
    for (long j = 0; j < d; ++j) c.check_msg(std::fabs(gm(j) - mu(0, j)) <= 1e-13 * sc * n, "mean", [&] { return cat("column ", j, ": ", gm(j)); });
    if (n < 2) {
      c.must_throw<AssertException>("covariance-of-one", [&] { resim::math::covariance(x); });
      return;
    }
    Matl z = xl.rowwise() - Eigen::Matrix<LD, 1, Eigen::Dynamic>(mu.row(0));
    const Matl cl = z.transpose() * z / static_cast<LD>(n - 1);
    const Mat got = resim::math::covariance(x);
    c.check(got.rows() == d && got.cols() == d, "covariance-size");
    // The mean loses sc*eps, each product then sd*sc*eps.
    const double tol = 1e-12 * std::sqrt(static_cast<double>(std::max(n, 100L)) / 100) * (sd * sd + sd * sc + sc * sc * 1e-10) * 10;
    c.check_msg((got.cast<LD>() - cl).cwiseAbs().maxCoeff() <= tol, "covariance", [&] { return cat("off by ", static_cast<double>((got.cast<LD>() - cl).cwiseAbs().maxCoeff()), " n=", n, " d=", d); });
    c.check((got - got.transpose()).cwiseAbs().maxCoeff() <= tol, "covariance-symmetric");
    c.event("statistics");
  });
  // Random durations are spread over everything representable.
  m.section("durations", 60, 1000, [](Case &c) {
    const uint64_t seed = c.rng();
    c.in(static_cast<int64_t>(seed));
    c.describe(cat("durations from seed ", seed));
    std::mt19937_64 g(seed), twin(seed);
    const long n = 4096;
    std::vector<double> high(64, 0), low(64, 0);
    std::set<int64_t> seen;
    for (long i = 0; i < n; ++i) {
      const int64_t d = resim::time::random_duration(resim::InOut{g}).count();
      c.check(d == resim::time::random_duration(resim::InOut{twin}).count(), "duration-reproducible", "equal generators gave different durations");
      seen.insert(d);
      high[(static_cast<uint64_t>(d) ^ (1ULL << 63)) >> 58] += 1;
      low[static_cast<uint64_t>(d) & 63] += 1;
    }
    c.check(g == twin, "duration-reproducible", "generators in different states");
    c.check(seen.size() == n, "duration-repeats", cat(n - static_cast<long>(seen.size()), " repeated durations"));
    // Chi-square with 63 degrees of freedom: above 150 has probability below 1e-8.
    for (const auto &h : {high, low}) {
      double chi = 0;
      for (double x : h) chi += (x - 64) * (x - 64) / 64;
      c.check_msg(chi < 170, "duration-spread", [&] { return cat("chi-square ", chi, " over 64 classes"); });
    }
    c.event("durations", n);
  });
}
VH_MAIN(body)
