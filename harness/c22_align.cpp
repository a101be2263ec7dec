// Alignments of scenes with known motions over all factors, backends, optimizers and search structures, logged for AlignTrace.tla.
#include "cases.hpp"
#include <omp.h>
#include <tbb/global_control.h>
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/kdtree_tbb.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/ann/incremental_voxelmap.hpp>
#include <small_gicp/ann/flat_container.hpp>
#include <small_gicp/ann/projective_search.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/factors/robust_kernel.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/reduction_tbb.hpp>
#include <small_gicp/registration/registration.hpp>
using namespace small_gicp;
using namespace vt;
#ifndef FACTOR
#define FACTOR 0
#endif
#if FACTOR == 0
using Factor = ICPFactor; using Container = FlatContainerPoints; constexpr bool GAUSS = true; static const char* NAME = "icp";
#elif FACTOR == 1
using Factor = PointToPlaneICPFactor; using Container = FlatContainerNormal; constexpr bool GAUSS = false; static const char* NAME = "plane";
#elif FACTOR == 2
using Factor = GICPFactor; using Container = FlatContainerCov; constexpr bool GAUSS = true; static const char* NAME = "gicp";
#elif FACTOR == 3
using Factor = RobustFactor<Huber, GICPFactor>; using Container = FlatContainerNormalCov; constexpr bool GAUSS = true; static const char* NAME = "huber-gicp";
#elif FACTOR == 4
using Factor = RobustFactor<Cauchy, ICPFactor>; using Container = FlatContainerNormalCov; constexpr bool GAUSS = false; static const char* NAME = "cauchy-icp";
#else
using Factor = RobustFactor<Huber, PointToPlaneICPFactor>; using Container = FlatContainerNormalCov; constexpr bool GAUSS = false; static const char* NAME = "huber-plane";
#endif

struct Case {
  std::vector<IVec> pts;
  double unit = 1;                 // metres per lattice unit
  PointCloud target, source;
  Eigen::Isometry3d truth, init;
  double corr, teps, reps, extent;
  int maxit;
  std::string json;
};
static const std::vector<Eigen::Matrix3d> CUBE = cube_rotations();

// lattice points of three walls and a few boxes, at least four units apart; directions: distinct cells of an equirectangular image
static std::vector<IVec> make_points(Rng& r, bool directions) {
  std::vector<IVec> pts;
  std::set<IVec> used, cells;
  const int n = r.in(40, 130);
  for (int tries = 0; tries < 4000 && (int)pts.size() < n; tries++) {
    IVec q{4 * r.in(-5, 5) + 2, 4 * r.in(-5, 5) + 2, 4 * r.in(-5, 5) + 2};
    if (!r.chance(1, 6)) { const int w = r.in(0, 2); q[w] = w == 0 ? 22 : w == 1 ? -18 : -22 + 4; }
    if (directions) {
      const double nn = std::sqrt(double(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]));
      if (nn < 8 || std::abs(q[1]) > 0.8 * nn) continue;
      const IVec cell{long(128 * (std::atan2(q[0], q[2]) / (2 * M_PI) + 0.5)), long(64 * (0.5 - std::asin(q[1] / nn) / M_PI))};
      if (!cells.insert(cell).second) continue;
    }
    if (used.insert(q).second) pts.push_back(q);
  }
  return pts;
}
static std::string digest(const PointCloud& c) {
  std::string s;
  auto add = [&](const auto& v) { for (const auto& x : v) s.append(reinterpret_cast<const char*>(x.data()), x.size() * sizeof(double)); };
  add(c.points); add(c.normals); add(c.covs);
  return s;
}
struct Driver {
  Trace& t;
  Rng& r;
  Case c;
  std::string before;
  void scene(bool directions) {
    do c.pts = make_points(r, directions); while (c.pts.size() < 40);
    c.unit = 1.0 / (1 << r.in(0, 4));
    std::vector<Eigen::Vector4d> v;
    for (auto& q : c.pts) v.push_back({q[0] * c.unit, q[1] * c.unit, q[2] * c.unit, 1});
    c.target = PointCloud(v);
    estimate_normals_covariances(c.target, r.in(6, 20));
    Ev(t, "scene").vv("pts", c.pts);
  }
  void motion() {
    Eigen::Matrix3d M;
    long d;
    IVec tr(3);
    for (;;) {
      const long a = r.in(40, 190), x = r.in(-2, 2), y = r.in(-2, 2), z = r.in(-2, 2);
      d = a * a + x * x + y * y + z * z;
      M << a * a + x * x - y * y - z * z, 2 * (x * y - a * z), 2 * (x * z + a * y), 2 * (x * y + a * z), a * a - x * x + y * y - z * z, 2 * (y * z - a * x), 2 * (x * z - a * y), 2 * (y * z + a * x),
        a * a - x * x - y * y + z * z;
      const bool still = r.chance(1, 12);
      if (still) { d = a * a; M = Eigen::Matrix3d::Identity() * d; }
      for (auto& k : tr) k = still ? 0 : r.in(-d * 6 / 10, d * 6 / 10);
      double worst = 0;
      for (auto& q : c.pts) {
        const Eigen::Vector3d p(q[0], q[1], q[2]);
        worst = std::max(worst, (M * p + Eigen::Vector3d(tr[0], tr[1], tr[2]) - d * p).norm() / d);
      }
      if (worst < 0.99) break;
    }
    const double extent = 23 * std::sqrt(3.0) * c.unit;
    c.extent = extent;
    Eigen::Isometry3d D = Eigen::Isometry3d::Identity();
    D.linear() = M / double(d);
    D.translation() = Eigen::Vector3d(tr[0], tr[1], tr[2]) / double(d) * c.unit;
    c.truth.setIdentity();
    if (r.chance(2, 3)) {
      c.truth.linear() = r.pick(CUBE);
      c.truth.translation() = Eigen::Vector3d(r.in(-40, 40), r.in(-40, 40), r.in(-40, 40)) * c.unit;
    }
    if (r.chance(1, 3)) {   // any rotation
      c.truth.linear() = Eigen::Quaterniond(r.in(1, 9), r.in(-9, 9), r.in(-9, 9), r.in(-9, 9)).normalized().toRotationMatrix();
    }
    c.init = D * c.truth;
    const Eigen::Isometry3d inv = c.truth.inverse();
    c.source.resize(c.pts.size());
    const bool own = r.chance(1, 2);
    for (size_t i = 0; i < c.pts.size(); i++) {
      c.source.point(i) = inv * c.target.point(i);
      c.source.point(i)[3] = 1;
      c.source.normal(i) = inv.matrix() * c.target.normal(i);
      c.source.cov(i) = inv.matrix() * c.target.cov(i) * inv.matrix().transpose();
    }
    if (own) estimate_normals_covariances(c.source, r.in(6, 20));
    // the order of the source points must not matter
    if (r.chance(1, 2)) {
      std::vector<size_t> order(c.pts.size());
      std::iota(order.begin(), order.end(), 0);
      for (size_t i = order.size() - 1; i > 0; i--) std::swap(order[i], order[r.in(0, i)]);
      PointCloud s = c.source;
      for (size_t i = 0; i < order.size(); i++) { c.source.point(i) = s.point(order[i]); c.source.normal(i) = s.normal(order[i]); c.source.cov(i) = s.cov(order[i]); }
      perm = order;
    } else {
      perm.resize(c.pts.size());
      std::iota(perm.begin(), perm.end(), 0);
    }
    const long corr = r.pick(IVec{2, 2, 3, 10, 1000});
    c.corr = corr * c.unit;
    c.maxit = 30;
    c.teps = r.pick(std::vector<double>{1e-3, 1e-3, 1e-4, 1e-5}) * c.unit;
    c.reps = r.pick(std::vector<double>{0.1 * M_PI / 180, 1e-3, 1e-4, 1e-5});
    IVec m;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m.push_back(std::lround(M(i, j)));
    Ev(t, "motion").v("M", m).i("d", d).v("t", tr).i("corr", corr);
    before = digest(c.source) + digest(c.target);
  }
  std::vector<size_t> perm;
  // scattered samples of the same walls
  void noise() {
    auto sample = [&](PointCloud& c, double shift) {
      std::vector<Eigen::Vector4d> v;
      const Eigen::Isometry3d T = Eigen::Translation3d(shift, -shift, shift / 2) * Eigen::AngleAxisd(shift / 3, Eigen::Vector3d(1, -2, 3).normalized());
      for (size_t i = 0; i < this->c.pts.size(); i++) {
        Eigen::Vector3d p(r.in(-30000, 30000) / 1e4, r.in(-30000, 30000) / 1e4, r.in(-30000, 30000) / 1e4);
        p[r.in(0, 2)] = 3;
        for (int k = 0; k < 3; k++) p[k] += r.in(-10000, 10000) / 2e5;
        p = T * p;
        v.push_back({p[0], p[1], p[2], 1});
      }
      c = PointCloud(v);
      estimate_normals_covariances(c, 10);
    };
    sample(c.target, 0);
    sample(c.source, r.in(0, 300) / 1000.0);
    c.unit = 0.25;
    c.init = Eigen::Isometry3d::Identity();
    c.extent = 5;
    c.corr = r.pick(std::vector<double>{0.5, 1, 2});
    c.teps = 1e-3;
    c.reps = 1e-3;
    c.maxit = 1;   // longer runs may amplify rounding
    before = digest(c.source) + digest(c.target);
    perm.resize(c.pts.size());
    std::iota(perm.begin(), perm.end(), 0);
    Ev(t, "noisy");
  }

  template <typename Reg>
  void setup(Reg& g) {
    g.rejector.max_dist_sq = c.corr * c.corr;
    g.criteria.translation_eps = c.teps;
    g.criteria.rotation_eps = c.reps;
    g.optimizer.max_iterations = c.maxit;
  }
  template <typename Target>
  void log(const char* tree, const char* opt, const std::string& backend, const RegistrationResult& res, const Target&) {
    double worst = 0;
    for (size_t i = 0; i < c.pts.size(); i++) worst = std::max(worst, (res.T_target_source * c.source.point(i) - c.target.point(perm[i])).norm());
    const Eigen::Matrix3d R = res.T_target_source.linear();
    Ev e(t, "run");
    e.str("factor", NAME).str("tree", tree).str("opt", opt).str("backend", backend);
    e.i("res", quant(worst / (c.teps + c.reps * c.extent), 1000)).i("orth", quant((R * R.transpose() - Eigen::Matrix3d::Identity()).norm(), 1e9));
    const Eigen::RowVector4d bottom = res.T_target_source.matrix().row(3);
    e.b("det", R.determinant() > 0).b("bottom", bottom == Eigen::RowVector4d(0, 0, 0, 1)).i("inliers", res.num_inliers).b("conv", res.converged).i("iter", res.iterations);
    e.b("untouched", digest(c.source) + digest(c.target) == before);
  }
  void agree(const RegistrationResult& a, const RegistrationResult& b) {
    Eigen::SelfAdjointEigenSolver<Eigen::Matrix<double, 6, 6>> eig(b.H);
    Ev e(t, "agree");
    e.b("well", eig.eigenvalues()[0] > 1e-5 * eig.eigenvalues()[5]);
    e.i("pose", quant((a.T_target_source.matrix() - b.T_target_source.matrix()).norm() / (1 + b.T_target_source.matrix().norm()), 1e9)).i("hess", quant((a.H - b.H).norm() / (1e-9 + b.H.norm()), 1e7));
    e.b("iters", a.iterations == b.iterations).b("conv", a.converged == b.converged).b("inl", a.num_inliers == b.num_inliers);
  }
  template <typename Opt, typename Target, typename Tree>
  void backends(const char* name, const char* opt, const Target& target, const Tree& tree, bool all) {
    Registration<Factor, SerialReduction, NullFactor, DistanceRejector, Opt> s;
    setup(s);
    const auto a = s.align(target, c.source, tree, c.init);
    log(name, opt, "serial", a, target);
    for (int i = 0; i < (all ? 3 : 1); i++) {
      const int n = r.pick(IVec{1, 2, 3, 4, 8, 13});
      Registration<Factor, ParallelReductionOMP, NullFactor, DistanceRejector, Opt> g;
      setup(g);
      g.reduction.num_threads = n;
      const auto b = g.align(target, c.source, tree, c.init);
      log(name, opt, "omp" + std::to_string(n), b, target);
      agree(b, a);
    }
    Registration<Factor, ParallelReductionTBB, NullFactor, DistanceRejector, Opt> g;
    setup(g);
    const int n = r.pick(IVec{1, 2, 4, 8});
    tbb::global_control gc(tbb::global_control::max_allowed_parallelism, n);
    const auto b = g.align(target, c.source, tree, c.init);
    log(name, opt, "tbb" + std::to_string(n), b, target);
    agree(b, a);
  }
  template <typename Target, typename Tree>
  void both(const char* name, const Target& target, const Tree& tree) {
    backends<LevenbergMarquardtOptimizer>(name, "lm", target, tree, false);
    backends<GaussNewtonOptimizer>(name, "gn", target, tree, r.chance(1, 3));
  }
  void runs(bool directions) {
    switch (r.in(0, 2)) {
      case 0: both("kdtree", c.target, UnsafeKdTree<PointCloud>(c.target)); break;
      case 1: both("kdtree-omp", c.target, UnsafeKdTree<PointCloud>(c.target, KdTreeBuilderOMP(r.in(1, 6)))); break;
      default: both("kdtree-tbb", c.target, KdTree<PointCloud>(std::make_shared<PointCloud>(c.target), KdTreeBuilderTBB()));
    }
    {
      IncrementalVoxelMap<Container> map(r.pick(IVec{4, 6, 8, 20}) * c.unit);
      map.set_search_offsets(27);
      map.voxel_setting.min_sq_dist_in_cell = 1e-9;
      map.voxel_setting.max_num_points_in_cell = 200;
      map.insert(c.target);
      both("voxelmap", map, map);
    }
    if constexpr (GAUSS) {
      GaussianVoxelMap map(4 * c.unit);   // one point in the middle of each voxel
      map.insert(c.target);
      both("gaussian", map, map);
    }
    if (directions) {
      UnsafeProjectiveSearch<PointCloud> search(128, 64, c.target);
      search.search_window_h = 16;
      search.search_window_v = 12;
      both("projective", c.target, search);
    }
  }
};

int main(int argc, char** argv) {
  Args a(argc, argv);
  Trace t(a.s("out"));
  Rng r(a.i("seed", 1));
  Driver d{t, r};
  for (int i = 0; i < a.i("iters", 10); i++) {
    const bool directions = r.chance(1, 2);
    d.scene(directions);
    for (int k = 0; k < 3; k++) { d.motion(); d.runs(directions); }
    d.noise();
    d.runs(directions);
  }
  Ev(t, "end");
}
