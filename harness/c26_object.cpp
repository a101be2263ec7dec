// Histories of registration objects, logged for RegTrace.tla.
#include "cases.hpp"
#include <tbb/global_control.h>
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/factors/robust_kernel.hpp>
#include <small_gicp/factors/general_factor.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/reduction_tbb.hpp>
#include <small_gicp/registration/registration.hpp>
using namespace small_gicp;
using namespace vt;
#ifndef KIND
#define KIND 0
#endif
#if KIND == 0
using Factor = RobustFactor<Huber, GICPFactor>; using Red = SerialReduction; using Gen = RestrictDoFFactor; using Opt = LevenbergMarquardtOptimizer; constexpr bool GAUSS = true;
#elif KIND == 1
using Factor = RobustFactor<Cauchy, ICPFactor>; using Red = ParallelReductionOMP; using Gen = NullFactor; using Opt = GaussNewtonOptimizer; constexpr bool GAUSS = true;
#elif KIND == 2
using Factor = PointToPlaneICPFactor; using Red = ParallelReductionTBB; using Gen = RestrictDoFFactor; using Opt = LevenbergMarquardtOptimizer; constexpr bool GAUSS = false;
#elif KIND == 3
using Factor = GICPFactor; using Red = ParallelReductionOMP; using Gen = RestrictDoFFactor; using Opt = GaussNewtonOptimizer; constexpr bool GAUSS = true;
#else
using Factor = RobustFactor<Huber, PointToPlaneICPFactor>; using Red = SerialReduction; using Gen = NullFactor; using Opt = GaussNewtonOptimizer; constexpr bool GAUSS = false;
#endif
using Reg = Registration<Factor, Red, Gen, DistanceRejector, Opt>;
constexpr bool ROBUST = KIND == 0 || KIND == 1 || KIND == 4, OMP = std::is_same_v<Red, ParallelReductionOMP>, TBB = std::is_same_v<Red, ParallelReductionTBB>,
  DOF = std::is_same_v<Gen, RestrictDoFFactor>, LM = std::is_same_v<Opt, LevenbergMarquardtOptimizer>;

struct Cfg {
  long width, corr, iters, eps, reps, lam, dlam, mask, threads;
  bool verbose;
  std::string json() const {
    std::ostringstream s;
    s << "{\"width\":" << width << ",\"corr\":" << corr << ",\"iters\":" << iters << ",\"eps\":" << eps << ",\"reps\":" << reps << ",\"lam\":" << lam << ",\"dlam\":" << dlam << ",\"mask\":" << mask
      << ",\"threads\":" << threads << ",\"verbose\":" << (verbose ? "true" : "false") << "}";
    return s.str();
  }
};
struct Parts { DistanceRejector rejector; TerminationCriteria criteria; typename Factor::Setting setting; Red reduction; Gen general; Opt optimizer; };
template <typename P> static auto& setting_of(P& p) { if constexpr (std::is_same_v<std::remove_const_t<P>, Parts>) return p.setting; else return p.point_factor; }
template <typename P> static auto& general_of(P& p) { if constexpr (std::is_same_v<std::remove_const_t<P>, Parts>) return p.general; else return p.general_factor; }

// one field of an object (or of the parts of the reference run)
template <typename P>
static void put(P& p, const Cfg& c, const std::string& f) {
  if (f == "width") { if constexpr (ROBUST) setting_of(p).robust_kernel.c = c.width / 1000.0; }
  if (f == "corr") p.rejector.max_dist_sq = (c.corr / 1000.0) * (c.corr / 1000.0);
  if (f == "iters") p.optimizer.max_iterations = c.iters;
  if (f == "eps") p.criteria.translation_eps = c.eps / 1e6;
  if (f == "reps") p.criteria.rotation_eps = c.reps / 1e6;
  if (f == "lam") { if constexpr (LM) p.optimizer.init_lambda = c.lam / 1e6; else p.optimizer.lambda = c.lam / 1e6; }
  if constexpr (DOF) {
    if (f == "dlam") general_of(p).lambda = c.dlam;
    if (f == "mask") {
      Eigen::Array3d a, b;
      for (int i = 0; i < 3; i++) { a[i] = c.mask >> i & 1; b[i] = c.mask >> (i + 3) & 1; }
      general_of(p).set_rotation_mask(a);
      general_of(p).set_translation_mask(b);
    }
  }
  if constexpr (OMP) { if (f == "threads") p.reduction.num_threads = c.threads; }
  if (f == "verbose") p.optimizer.verbose = c.verbose;
}
static const std::vector<std::string> FIELDS{"width", "corr", "iters", "eps", "reps", "lam", "dlam", "mask", "threads", "verbose"};
// everything an object holds
template <typename G> static std::string state(const G& g) {
  std::string s;
  auto add = [&](const auto& v) { s.append(reinterpret_cast<const char*>(&v), sizeof(v)); };
  if constexpr (ROBUST) add(g.point_factor.robust_kernel.c);
  add(g.rejector.max_dist_sq); add(g.optimizer.max_iterations); add(g.criteria.translation_eps); add(g.criteria.rotation_eps); add(g.optimizer.verbose);
  if constexpr (LM) { add(g.optimizer.init_lambda); add(g.optimizer.lambda_factor); add(g.optimizer.max_inner_iterations); } else add(g.optimizer.lambda);
  if constexpr (DOF) { add(g.general_factor.lambda); for (int i = 0; i < 6; i++) add(g.general_factor.mask[i]); }
  if constexpr (OMP) add(g.reduction.num_threads);
  return s;
}
static std::string digest(const PointCloud& c) {
  std::string s;
  auto add = [&](const auto& v) { for (const auto& x : v) s.append(reinterpret_cast<const char*>(x.data()), x.size() * sizeof(double)); };
  add(c.points); add(c.normals); add(c.covs);
  return s;
}

struct World {
  std::vector<std::shared_ptr<PointCloud>> clouds;   // of different sizes
  std::vector<std::shared_ptr<UnsafeKdTree<PointCloud>>> trees;
  std::vector<std::shared_ptr<GaussianVoxelMap>> maps;
  explicit World(Rng& r) {
    for (int n : {180, 61, 130, 90}) {
      std::vector<Eigen::Vector4d> v;
      const Eigen::Isometry3d T = Eigen::Translation3d(r.in(-100, 100) / 800.0, r.in(-100, 100) / 800.0, r.in(-100, 100) / 800.0) * Eigen::AngleAxisd(r.in(-100, 100) / 1500.0, Eigen::Vector3d(1, -2, r.in(1, 3)).normalized());
      for (int i = 0; i < n; i++) {
        Eigen::Vector3d p(r.in(-30000, 30000) / 1e4, r.in(-30000, 30000) / 1e4, r.in(-30000, 30000) / 1e4);
        p[i % 3] = 3;
        for (int k = 0; k < 3; k++) p[k] += r.in(-10000, 10000) / 1e5;
        p = T * p;
        v.push_back({p[0], p[1], p[2], 1});
      }
      clouds.push_back(std::make_shared<PointCloud>(v));
      estimate_normals_covariances(*clouds.back(), 12);
      trees.push_back(std::make_shared<UnsafeKdTree<PointCloud>>(*clouds.back()));
      maps.push_back(std::make_shared<GaussianVoxelMap>(1.5));
      maps.back()->insert(*clouds.back());
    }
  }
  std::string all() const { std::string s; for (auto& c : clouds) s += digest(*c); return s; }
};

struct Session {
  Trace& t;
  Rng& r;
  const World& w;
  std::map<long, std::unique_ptr<Reg>> objs;
  std::map<long, Cfg> cfg;
  Session(Trace& t, Rng& r, const World& w) : t(t), r(r), w(w) { Ev(t, "session"); }
  void make(long o) {
    const Cfg c{1000, 1000, 20, 1000, 1745, LM ? 1000 : 1, 1000000000, 63, OMP ? 4 : 0, false};
    objs[o] = std::make_unique<Reg>();
    cfg[o] = c;
    if (KIND == 0 || KIND == 4) { /* Huber: 1.0 */ }
    Ev(t, "new").i("o", o).raw("s", c.json());
    set(o, "reps", 2000);   // the default is not a round number
  }
  void set(long o, const std::string& f, long v) {
    Cfg& c = cfg[o];
    long* p = f == "width" ? &c.width : f == "corr" ? &c.corr : f == "iters" ? &c.iters : f == "eps" ? &c.eps : f == "reps" ? &c.reps : f == "lam" ? &c.lam : f == "dlam" ? &c.dlam : f == "mask" ? &c.mask : f == "threads" ? &c.threads : nullptr;
    if (p) *p = v; else c.verbose = v;
    put(*objs[o], c, f);
    Ev e(t, "set");
    e.i("o", o).str("f", f);
    if (p) e.i("v", v); else e.b("v", v);
  }
  void copy(long o, long from) {
    if (r.chance(1, 2)) objs[o] = std::make_unique<Reg>(*objs[from]);
    else if constexpr (std::is_copy_assignable_v<Reg>) { Reg g; g = *objs[from]; objs[o] = std::make_unique<Reg>(std::move(g)); }
    else objs[o] = std::make_unique<Reg>(*objs[from]);
    cfg[o] = cfg[from];
    Ev(t, "copy").i("o", o).i("from", from);
  }
  bool sure(const Cfg& c) const { return !TBB && (!OMP || c.threads == 1); }
  template <int K = KIND>
  void align(long o, int tgt, int src, bool map, int guess) {
    const Cfg& c = cfg[o];
    if (!sure(c) && c.iters > 2) set(o, "iters", 2);   // longer runs may amplify rounding
    const PointCloud &target = *w.clouds[tgt], &source = *w.clouds[src];
    Eigen::Isometry3d init = Eigen::Isometry3d::Identity();
    if (guess) { init.translation() = Eigen::Vector3d(0.05 * guess, -0.1, 0.02); init.linear() = Eigen::AngleAxisd(0.02 * guess, Eigen::Vector3d::UnitZ()).toRotationMatrix(); }
    const std::string before = state(*objs[o]);
    const Reg& g = *objs[o];
    RegistrationResult got(init), ref(init);
    auto run = [&](const auto& tc, const auto& tree) {
      const bool first = r.chance(1, 2);
      auto direct = [&] {
        Parts p;
        for (auto& f : FIELDS) put(p, c, f);
        std::vector<Factor> factors;
        for (size_t i = 0; i < source.size(); i++) factors.emplace_back(p.setting);
        ref = p.optimizer.optimize(tc, source, tree, p.rejector, p.criteria, p.reduction, init, factors, p.general);
      };
      if (first) direct();
      got = !guess && r.chance(1, 2) ? g.align(tc, source, tree) : g.align(tc, source, tree, init);
      if (!first) direct();
    };
    bool done = false;
    if constexpr (GAUSS && K >= 0) if (map) { run(*w.maps[tgt], *w.maps[tgt]); done = true; }
    if (!done) { map = false; run(target, *w.trees[tgt]); }
    auto bytes = [](const RegistrationResult& x) {
      std::string s(reinterpret_cast<const char*>(x.T_target_source.matrix().data()), 128);
      s.append(reinterpret_cast<const char*>(x.H.data()), 288);
      s.append(reinterpret_cast<const char*>(x.b.data()), 48);
      s.append(reinterpret_cast<const char*>(&x.error), 8);
      return s + std::to_string(x.iterations) + "/" + std::to_string(x.num_inliers) + (x.converged ? "c" : "n");
    };
    if (c.iters == 0) { got.H.setZero(); ref.H.setZero(); got.b.setZero(); ref.b.setZero(); got.error = ref.error = 0; got.iterations = ref.iterations = 0; }
    const auto a = bytes(got), b = bytes(ref);
    std::ostringstream d;
    d << "{\"exact\":" << (a == b ? "true" : "false") << ",\"pose\":" << quant((got.T_target_source.matrix() - ref.T_target_source.matrix()).norm(), 1e8)
      << ",\"hess\":" << quant((got.H - ref.H).norm() / (1e-9 + ref.H.norm()), 1e9) << ",\"inl\":" << (got.num_inliers == ref.num_inliers ? "true" : "false") << "}";
    Ev(t, "align").i("o", o).raw("ref", c.json()).b("sure", sure(c)).str("key", std::to_string(tgt) + "." + std::to_string(src) + (map ? "m" : "t") + std::to_string(guess))
      .str("ans", std::to_string(std::hash<std::string>()(a))).b("kept", state(g) == before).raw("diff", d.str());
  }
  void any(long o) { align(o, r.in(0, 3), r.in(0, 3), r.chance(1, 3), r.in(0, 2)); }
  void turn(long o) {
    const std::string f = r.pick(FIELDS);
    const long v = f == "width" ? r.pick(IVec{20, 100, 300, 1000}) : f == "corr" ? r.pick(IVec{200, 500, 1000, 3000}) : f == "iters" ? r.pick(IVec{0, 1, 2, 3, 10}) : f == "eps" ? r.pick(IVec{1, 1000, 100000}) :
                   f == "reps" ? r.pick(IVec{1, 2000, 100000}) : f == "lam" ? r.pick(IVec{1, 1000, 1000000, 100000000}) : f == "dlam" ? r.pick(IVec{0, 1000, 1000000000}) :
                   f == "mask" ? r.in(0, 63) : f == "threads" ? r.pick(IVec{1, 1, 2, 3, 8}) : r.in(0, 1);
    if (f == "threads" && !OMP) return;
    set(o, f, v);
  }
};

int main(int argc, char** argv) {
  Args a(argc, argv);
  Trace t(a.s("out"));
  Rng r(a.i("seed", 1));
  std::cerr.setstate(std::ios::failbit);
  std::cout.setstate(std::ios::failbit);
  const World w(r);
  const std::string before = w.all();
  if (a.s("mode") == "gen") {
    const auto cases = read_cases(a.s("cases"));
    for (size_t i = a.i("shard"); i < cases.size(); i += a.i("nshards", 1)) {
      Session s(t, r, w);
      s.make(1);
      s.make(2);
      for (long o : {1, 2}) { if (OMP) s.set(o, "threads", 1); s.set(o, "iters", 2); }
      for (size_t j = 3; j < cases[i].size(); j++) switch (cases[i][j]) {
        case 1: s.align(1, 0, 1, false, 0); break;      // few source points
        case 2: s.align(1, 0, 2, i % 2, 1); break;      // more
        case 3: s.set(1, ROBUST ? "width" : "corr", 50); break;
        case 4: s.set(1, "lam", 1000000); break;
        case 5: if (DOF) s.set(1, "mask", 0b110100); else s.set(1, "corr", 300); break;
        case 6: s.copy(2, 1); break;
        case 7: s.align(2, 1, 2, false, 0); break;      // the other object
        case 8: s.set(2, "corr", 700); break;
      }
      s.align(1, 0, 2, i % 2, 1);
      s.align(2, 0, 2, i % 2, 1);
    }
  } else {
    for (int i = 0; i < a.i("iters", 20); i++) {
      Session s(t, r, w);
      for (long o = 1; o <= 3; o++) { s.make(o); if (OMP && r.chance(1, 2)) s.set(o, "threads", 1); }
      for (int n = r.in(10, 40); n; n--) {
        const long o = r.in(1, 3);
        if (r.chance(2, 5)) s.any(o);
        else if (r.chance(1, 6)) s.copy(o, r.in(1, 3));
        else s.turn(o);
      }
      for (long o = 1; o <= 3; o++) { s.any(o); s.any(o); }
    }
  }
  if (w.all() != before) Ev(t, "cloud changed");
  Ev(t, "end");
}
