// RestrictDoFFactor in the real optimizers over mock reductions and over real scenes, logged for DofTrace.tla.
#include "cases.hpp"
#include "twist.hpp"
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/factors/general_factor.hpp>
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/util/normal_estimation.hpp>
using namespace small_gicp;
using namespace vt;
using Mat6 = Eigen::Matrix<double, 6, 6>;
using Vec6 = Eigen::Matrix<double, 6, 1>;
constexpr double QS = 65536.0;

// One scripted problem: the k-th linearization returns the k-th system; errors go down with every evaluation.
struct Problem {
  Trace* t = nullptr;
  Rng r{1};
  bool any = false;      // a system was returned
  Eigen::Isometry3d lin;
  IVec H, b;
  double e = 1e9;
  std::vector<Eigen::Isometry3d> poses;
  bool stepped = false;
  // An evaluation at the linearization pose itself is no step, unless nothing else follows (final).
  void observe(const Eigen::Isometry3d& T, bool final = false) {
    if (!any || (final ? stepped : lin.matrix() == T.matrix())) return;
    stepped = true;
    poses.push_back(T);
    if (!t) return;
    const Vec6 d = se3_log(lin.inverse() * T);
    IVec rel;
    for (int i = 0; i < 6; i++) rel.push_back(quant(d[i], QS));
    Ev(*t, "step").v("H", H).v("b", b).v("rel", rel);
  }
  void next(const Eigen::Isometry3d& T) {
    observe(T, true);
    any = true;
    stepped = false;
    lin = T;
    H.assign(36, 0);
    b.assign(6, 0);
    const int c = r.in(0, 2);
    for (int i = 0; i < 6; i++) {
      for (int j = 0; j < i; j++) { const long v = c == 0 ? 0 : r.in(-c, c); H[6 * i + j] = H[6 * j + i] = v; }
      H[6 * i + i] = r.in(11, 20);
      b[i] = r.chance(1, 6) ? 0 : r.in(-8192, 8192);
    }
  }
};
static Problem* problem = nullptr;
struct Tree {};
struct MockFactor { struct Setting {}; MockFactor(const Setting& = Setting()) {} bool inlier() const { return true; } };
struct MockReduction {
  template <typename A, typename B, typename C, typename D, typename F>
  std::tuple<Mat6, Vec6, double> linearize(const A&, const B&, const C&, const D&, const Eigen::Isometry3d& T, std::vector<F>&) const {
    problem->next(T);
    Mat6 H; Vec6 b;
    for (int i = 0; i < 6; i++) { b[i] = problem->b[i] / 1024.0; for (int j = 0; j < 6; j++) H(i, j) = problem->H[i * 6 + j]; }
    return {H, b, problem->e};
  }
  template <typename A, typename B, typename F>
  double error(const A&, const B&, const Eigen::Isometry3d& T, std::vector<F>&) const { problem->observe(T); return problem->e -= 1.0; }
};

static Eigen::Array3d bits(long m) { return Eigen::Array3d(m & 1, (m >> 1) & 1, (m >> 2) & 1); }
static IVec bitv(long m) { return {m & 1, (m >> 1) & 1, (m >> 2) & 1}; }

template <typename Opt, typename General>
static std::vector<Eigen::Isometry3d> solve(const Registration<MockFactor, MockReduction, General, NullRejector, Opt>& reg, Trace* t, uint64_t seed) {
  Problem p;
  p.t = t;
  p.r = Rng(seed);
  problem = &p;
  Eigen::Isometry3d init = random_isometry(p.r, 10.0);
  static const PointCloud cloud(std::vector<Eigen::Vector3d>(12, Eigen::Vector3d::Zero()));
  const auto res = reg.align(cloud, cloud, Tree(), init);
  p.observe(res.T_target_source, true);
  p.poses.push_back(res.T_target_source);
  return p.poses;
}

template <typename Opt>
static void session(Trace& t, Rng& r, const IVec& ops, double lambda) {
  Registration<MockFactor, MockReduction, RestrictDoFFactor, NullRejector, Opt> reg;
  Registration<MockFactor, MockReduction, NullFactor, NullRejector, Opt> plain;
  reg.optimizer.max_iterations = plain.optimizer.max_iterations = r.in(1, 4);
  if (lambda > 0) reg.general_factor.lambda = lambda;
  Ev(t, "new");
  for (long o : ops) {  // 0..7 rotation mask, 8..15 translation mask
    if (o < 8) { reg.general_factor.set_rotation_mask(bits(o)); Ev(t, "rot").v("m", bitv(o)); }
    else { reg.general_factor.set_translation_mask(bits(o - 8)); Ev(t, "trans").v("m", bitv(o - 8)); }
    const uint64_t seed = r.next();
    const auto a = solve(reg, &t, seed);
    const auto b = solve(plain, nullptr, seed);
    bool same = a.size() == b.size();
    for (size_t i = 0; same && i < a.size(); i++) same = (a[i].matrix() - b[i].matrix()).norm() < 1e-9;
    Ev(t, "result").b("same", same);
  }
}

// A box-shaped room, moved by a small motion that may lie outside of the active directions.
template <typename F, typename Opt>
static void scene(Trace& t, Rng& r, long rot, long trans) {
  auto target = std::make_shared<PointCloud>();
  std::vector<Eigen::Vector3d> pts;
  for (int i = 0; i < 400; i++) {
    Eigen::Vector3d p(r.in(-1000, 1000) / 250.0, r.in(-1000, 1000) / 300.0, r.in(-1000, 1000) / 350.0);
    const int s = r.in(0, 2);
    p[s] = s == 0 ? 4 : s == 1 ? -3.3 : 2.8;
    pts.push_back(p);
  }
  *target = PointCloud(pts);
  auto tree = std::make_shared<KdTree<PointCloud>>(target);
  estimate_normals_covariances(*target, *tree, 8);
  Vec6 motion;
  for (int i = 0; i < 6; i++) motion[i] = r.in(-100, 100) / 2000.0;
  const Eigen::Isometry3d M = se3_exp(motion);
  PointCloud source = *target;
  for (size_t i = 0; i < source.size(); i++) source.point(i) = M.inverse() * source.point(i);
  for (size_t i = 0; i < source.size(); i++) source.cov(i) = M.inverse().matrix() * source.cov(i) * M.inverse().matrix().transpose();
  Vec6 g;
  for (int i = 0; i < 6; i++) g[i] = r.in(-100, 100) / 4000.0;
  const Eigen::Isometry3d init = se3_exp(g);
  Registration<F, ParallelReductionOMP, RestrictDoFFactor, DistanceRejector, Opt> reg;
  reg.reduction.num_threads = 2;
  reg.general_factor.set_translation_mask(bits(trans));
  reg.general_factor.set_rotation_mask(bits(rot));
  const auto res = reg.align(*target, source, *tree, init);
  const Vec6 d = se3_log(init.inverse() * res.T_target_source);
  IVec rel;
  for (int i = 0; i < 6; i++) rel.push_back(quant(d[i], QS));
  Registration<F, ParallelReductionOMP, NullFactor, DistanceRejector, Opt> plain;
  const auto full = plain.align(*target, source, *tree, init);
  const Vec6 dd = se3_log(full.T_target_source.inverse() * res.T_target_source);
  Ev(t, "scene").v("rot", bitv(rot)).v("trans", bitv(trans)).v("rel", rel).b("same", dd.norm() < 1e-5);
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  Trace t(a.s("out"));
  Rng r(a.i("seed", 1));
  const std::string mode = a.s("mode", "rand");
  if (mode == "gen") {
    const auto cases = read_cases(a.s("cases"));
    for (size_t c = a.i("shard"); c < cases.size(); c += a.i("nshards", 1)) {
      IVec ops(cases[c].begin() + 3, cases[c].end());
      for (auto& o : ops) o--;
      if (c % 2) session<LevenbergMarquardtOptimizer>(t, r, ops, 0); else session<GaussNewtonOptimizer>(t, r, ops, 0);
    }
  } else if (mode == "rand") {
    for (int it = 0; it < a.i("iters", 50); it++) {
      IVec ops;
      for (int k = r.in(1, 6); k; k--) ops.push_back(r.chance(1, 5) ? r.pick(IVec{7, 15}) : r.in(0, 15));
      const double lambda = r.pick(std::vector<double>{0, 0, 1e8, 1e10});
      if (it % 2) session<LevenbergMarquardtOptimizer>(t, r, ops, lambda); else session<GaussNewtonOptimizer>(t, r, ops, lambda);
    }
  } else {
    // directions that are closed under composition
    static const std::vector<std::array<long, 2>> groups{{7, 7}, {0, 7}, {7, 0}, {0, 1}, {0, 2}, {0, 4}, {0, 3}, {0, 6}, {0, 5}, {4, 3}, {4, 7}, {1, 6}, {2, 5}, {4, 4}, {1, 1}, {2, 2}, {4, 0}, {1, 0}, {2, 0}, {0, 0}, {2, 7}, {1, 7}};
    for (int it = 0; it < a.i("iters", 5); it++) {
      const auto g = groups[(it + a.i("seed", 1) * 5) % groups.size()];
      switch (r.in(0, 3)) {
        case 0: scene<ICPFactor, LevenbergMarquardtOptimizer>(t, r, g[0], g[1]); break;
        case 1: scene<GICPFactor, LevenbergMarquardtOptimizer>(t, r, g[0], g[1]); break;
        case 2: scene<GICPFactor, GaussNewtonOptimizer>(t, r, g[0], g[1]); break;
        default: scene<PointToPlaneICPFactor, GaussNewtonOptimizer>(t, r, g[0], g[1]); break;
      }
    }
  }
  Ev(t, "end");
}
