// Every public operation on inputs of degenerate size, under address and undefined-behaviour sanitizers, logged for DegenTrace.tla.
#include "cases.hpp"
#include <sstream>
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/kdtree_tbb.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/ann/incremental_voxelmap.hpp>
#include <small_gicp/ann/flat_container.hpp>
#include <small_gicp/ann/projective_search.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/factors/robust_kernel.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/downsampling_omp.hpp>
#include <small_gicp/util/downsampling_tbb.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/util/normal_estimation_tbb.hpp>
#include <small_gicp/util/sort_omp.hpp>
#include <small_gicp/util/sort_tbb.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/reduction_tbb.hpp>
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/registration/registration_helper.hpp>
#ifndef PART
#define PART 0   // 0: everything but alignments, 1: alignments
#endif
using namespace small_gicp;
using namespace vt;


// 0 identical at the origin, 1 identical elsewhere, 2 collinear, 3 coplanar, 4 generic; points sit inside voxels of size 1 and 1000
static std::vector<Eigen::Vector4d> points(Rng& r, int n, int shape) {
  std::vector<Eigen::Vector4d> v;
  for (int i = 0; i < n; i++) {
    Eigen::Vector4d p(0, 0, 0, 1);
    if (shape == 1) p << 3.5, 1.5, 2.5, 1;
    if (shape == 2) p << r.in(0, 9) + 0.5, 1.5, 2.5, 1;
    if (shape == 3) p << r.in(0, 9) + 0.5, r.in(0, 9) + 0.5, 2.5, 1;
    if (shape == 4) p << r.in(0, 9) + 0.5, r.in(0, 9) + 0.5, r.in(0, 9) + 0.5, 1;
    v.push_back(p);
  }
  return v;
}
static long distinct(const std::vector<Eigen::Vector4d>& v) {
  std::set<std::array<double, 3>> s;
  for (auto& p : v) s.insert({p[0], p[1], p[2]});
  return s.size();
}
// A search structure which finds at most cap points and leaves tempting values behind what it found
struct Lure {
  const PointCloud* c;
  size_t cap;
  size_t knn_search(const Eigen::Vector4d& q, size_t k, size_t* idx, double* d) const {
    std::vector<std::pair<double, size_t>> all;
    for (size_t i = 0; i < c->size(); i++) all.push_back({(c->point(i) - q).squaredNorm(), i});
    std::sort(all.begin(), all.end());
    const size_t n = std::min({all.size(), k, cap});
    for (size_t i = 0; i < k; i++) { idx[i] = i < n ? all[i].second : cap % 2 ? 0 : 1ull << 40; d[i] = i < n ? all[i].first : 0; }
    return n;
  }
};
namespace small_gicp { namespace traits {
template <> struct Traits<Lure> {
  static size_t nearest_neighbor_search(const Lure& l, const Eigen::Vector4d& q, size_t* i, double* d) { return l.knn_search(q, 1, i, d); }
  static size_t knn_search(const Lure& l, const Eigen::Vector4d& q, size_t k, size_t* i, double* d) { return l.knn_search(q, k, i, d); }
};
} }
struct Case { int o, n, s, k, b; };
struct Run {
  Trace& t;
  Rng& r;
  int th;
  // exact sized buffers: a write past them is seen by the sanitizer
  template <typename S>
  void search(const char* what, const S& s, long n, long k, const std::vector<Eigen::Vector4d>& pts, bool all) {
    std::vector<Eigen::Vector4d> qs = {Eigen::Vector4d(0, 0, 0, 1), Eigen::Vector4d(-100, 50, 3, 1)};
    if (!pts.empty()) { qs.push_back(pts[0]); qs.push_back(pts.back() + Eigen::Vector4d(0.1, 0, 0, 0)); }
    for (auto& q : qs) {
      std::unique_ptr<size_t[]> i(new size_t[k]), one(new size_t[1]);
      std::unique_ptr<double[]> d(new double[k]), od(new double[1]);
      const size_t f = traits::knn_search(s, q, k, i.get(), d.get());
      const size_t g = traits::nearest_neighbor_search(s, q, one.get(), od.get());
      bool ok = f <= size_t(k) && g <= 1;
      for (size_t j = 0; ok && j < f; j++) ok = std::isfinite(d[j]) && (!j || d[j - 1] <= d[j]) && (!all || i[j] < size_t(n));
      if (ok && g) ok = std::isfinite(od[0]) && (!f || od[0] == d[0]);
      Ev(t, "search").str("in", what).b("all", all).i("n", n).i("k", k).i("found", f).i("one", g).b("ok", ok);
    }
  }
  template <typename Reg, typename Tgt, typename Src, typename Tree>
  void align(const char* what, Reg g, const Tgt& tg, const Src& s, const Tree& tr, bool apart, bool flat, double corr) {
    for (int iters : {0, 1, 15}) {
      g.optimizer.max_iterations = iters;
      g.rejector.max_dist_sq = corr * corr;
      Eigen::Isometry3d T = Eigen::Isometry3d::Identity();
      T.translation() << 0.05, -0.02, 0.03;
      const auto a = g.align(tg, s, tr, T);
      log(what, a, T, traits::size(s), traits::size(tg), apart, flat, iters);
    }
  }
  void log(const char* what, const RegistrationResult& a, const Eigen::Isometry3d& T, long ns, long nt, bool apart, bool flat, int iters) {
    const double m = (a.T_target_source.matrix() - T.matrix()).norm();
    Ev(t, "align").str("type", what).i("ns", ns).i("nt", nt).b("apart", apart).b("flat", flat).i("iters", iters).i("inliers", a.num_inliers)
      .i("moved", m == 0 ? 0 : std::isfinite(m) && m < 1e3 ? 1 + long(m * 1e6) : NOT_FINITE).i("error", a.error == 0 ? 0 : std::isfinite(a.error) ? 1 : NOT_FINITE)
      .b("finite", a.T_target_source.matrix().allFinite() && (iters == 0 || (a.H.allFinite() && a.b.allFinite())));
  }
  template <typename Fac, typename Opt, typename F>
  void backend(int b, F&& f) {
    if (b == 1) { Registration<Fac, ParallelReductionOMP, NullFactor, DistanceRejector, Opt> g; g.reduction.num_threads = th; f(g); }
    else if (b == 2) f(Registration<Fac, ParallelReductionTBB, NullFactor, DistanceRejector, Opt>());
    else f(Registration<Fac, SerialReduction, NullFactor, DistanceRejector, Opt>());
  }
  template <typename Fac, typename Opt>
  void pairs(const char* what, const Case& c, bool flat) {
    auto cloud = [&](int n, double off) {
      auto v = points(r, n, c.s);
      for (auto& p : v) p[0] += off;
      auto x = std::make_shared<PointCloud>(v);
      estimate_normals_covariances(*x, c.k);
      return x;
    };
    auto a = cloud(c.n, 0), e = cloud(0, 0), far = cloud(c.n, 500), other = cloud(r.in(0, 7), 0);
    auto ta = std::make_shared<KdTree<PointCloud>>(a), te = std::make_shared<KdTree<PointCloud>>(e);
    const bool inv = flat && std::min(c.n, c.k) < 5;
    backend<Fac, Opt>(c.b, [&](auto g) {
      align(what, g, *a, *e, *ta, false, inv, 1.0);
      align(what, g, *e, *a, *te, false, inv, 1.0);
      align(what, g, *a, *far, *ta, true, inv, 1.0);
      align(what, g, *a, *a, *ta, false, inv, 1.0);
      align(what, g, *a, *a, Lure{a.get(), 0}, true, inv, 1.0);
      align(what, g, *a, *other, *ta, false, inv, 3.0);
      UnsafeProjectiveSearch<PointCloud> pa(40, 20, *a), pe(40, 20, *e);
      align(what, g, *a, *a, pa, false, inv, 1.0);
      align(what, g, *e, *a, pe, false, inv, 1.0);
    });
  }
  void maps(const Case& c) {
    auto x = std::make_shared<PointCloud>(points(r, c.n, c.s)), e = std::make_shared<PointCloud>();
    estimate_normals_covariances(*x, c.k);
    GaussianVoxelMap m(1.0), z(1.0);
    m.insert(*x);
    z.insert(*e);
    PointCloud far = *x;
    for (auto& p : far.points) p[0] += 500;
    backend<GICPFactor, LevenbergMarquardtOptimizer>(c.b, [&](auto g) {
      align("vgicp", g, m, *x, m, false, false, 1.0);
      align("vgicp", g, z, *x, z, false, false, 1.0);
      align("vgicp", g, m, *e, m, false, false, 1.0);
      align("vgicp", g, m, far, m, true, false, 1.0);
    });
  }
  template <typename C> void sampled(const C& c, const char* rule, long n, long d, long k) {
    bool ok = true;
    for (size_t i = 0; i < c.size(); i++) ok = ok && c.point(i).allFinite() && c.point(i)[3] == 1;
    Ev(t, "sample").str("rule", rule).i("n", n).i("d", d).i("k", k).i("out", c.size()).b("ok", ok);
  }
  void features(const Case& c) {
    const auto v = points(r, c.n, c.s);
    KdTree<PointCloud> tree(std::make_shared<PointCloud>(v));
    estimate(c, v, tree, c.k);
    PointCloud same(v);
    const size_t cap = r.in(0, 7);
    estimate(c, v, Lure{&same, cap}, std::min<int>(c.k, cap));
  }
  template <typename Tree>
  void estimate(const Case& c, const std::vector<Eigen::Vector4d>& v, const Tree& given, int k) {
    const int what = c.o - 6;
    Tree tree = given;
    for (int own = 0; own < (std::is_same_v<Tree, Lure> ? 1 : 2); own++) {
      PointCloud x(v);
      if (what == 0) { if (c.b == 1) own ? estimate_normals_omp(x, c.k, th) : estimate_normals_omp(x, tree, c.k, th); else if (c.b == 2) own ? estimate_normals_tbb(x, c.k) : estimate_normals_tbb(x, tree, c.k); else own ? estimate_normals(x, c.k) : estimate_normals(x, tree, c.k); }
      if (what == 1) { if (c.b == 1) own ? estimate_covariances_omp(x, c.k, th) : estimate_covariances_omp(x, tree, c.k, th); else if (c.b == 2) own ? estimate_covariances_tbb(x, c.k) : estimate_covariances_tbb(x, tree, c.k); else own ? estimate_covariances(x, c.k) : estimate_covariances(x, tree, c.k); }
      if (what == 2) { if (c.b == 1) own ? estimate_normals_covariances_omp(x, c.k, th) : estimate_normals_covariances_omp(x, tree, c.k, th); else if (c.b == 2) own ? estimate_normals_covariances_tbb(x, c.k) : estimate_normals_covariances_tbb(x, tree, c.k); else own ? estimate_normals_covariances(x, c.k) : estimate_normals_covariances(x, tree, c.k); }
      Ev(t, "features").i("n", c.n).i("k", k).i("size", x.size());
      for (size_t i = 0; i < x.size(); i++) {
        Ev e(t, "feature");
        e.i("n", c.n).i("k", k).b("hasn", what != 1).b("hasc", what != 0);
        if (what != 1) { IVec v; for (int j = 0; j < 4; j++) v.push_back(lat(x.normal(i)[j])); e.v("normal", v).i("norm", quant(x.normal(i).norm(), 1e4)); }
        if (what != 0) {
          IVec v;
          for (int j = 0; j < 16; j++) v.push_back(lat(x.cov(i)(j / 4, j % 4)));
          e.v("cov", v).i("trace", quant(x.cov(i).trace(), 1e4)).i("asym", quant((x.cov(i) - x.cov(i).transpose()).norm(), 1e6));
        }
      }
    }
  }
  void helper(const Case& c) {
    auto v = points(r, c.n, c.s), w = points(r, r.in(0, 4), c.s);
    std::vector<Eigen::Vector3f> f, h;
    for (auto& p : v) f.push_back(p.head<3>().cast<float>());
    for (auto& p : w) h.push_back(p.head<3>().cast<float>());
    auto p = preprocess_points(PointCloud(v), 0.5, c.k, th);
    Ev(t, "sample").str("rule", "own").i("n", c.n).i("d", distinct(v)).i("k", c.k).i("out", p.first->size()).b("ok", p.first->normals.size() == p.first->size() && p.first->covs.size() == p.first->size());
    search("helper", *p.second, p.first->size(), c.k, v, true);
    auto m = create_gaussian_voxelmap(*p.first, 1.0);
    Ev(t, "sample").str("rule", "own").i("n", p.first->size()).i("d", distinct(p.first->points)).i("k", c.k).i("out", m->size()).b("ok", true);
    for (auto ty : {RegistrationSetting::ICP, RegistrationSetting::PLANE_ICP, RegistrationSetting::GICP, RegistrationSetting::VGICP}) {
      RegistrationSetting s;
      s.type = ty; s.num_threads = th; s.downsampling_resolution = 0.5;
      Eigen::Isometry3d T = Eigen::Isometry3d::Identity();
      T.translation() << 0.01, 0.02, -0.01;
      log("helper", small_gicp::align(v, w, T, s), T, w.size(), v.size(), false, false, 20);
      log("helper", small_gicp::align(h, f, T, s), T, f.size(), h.size(), false, false, 20);
    }
  }
  void step(const Case& c) {
    Ev(t, "call").i("o", c.o).i("n", c.n).i("s", c.s).i("k", c.k).i("b", c.b);
    th = r.pick(IVec{1, 2, 5, 8});
    const auto v = points(r, c.n, c.s);
    auto x = std::make_shared<PointCloud>(v);
    const long d = distinct(v);
    switch (c.o) {
#if PART == 0
      case 0: {
        std::shared_ptr<KdTree<PointCloud>> t0;
        const int leaf = r.pick(IVec{1, 2, 20});
        if (c.b == 1) { KdTreeBuilderOMP b(th); b.max_leaf_size = leaf; t0 = std::make_shared<KdTree<PointCloud>>(x, b); }
        else if (c.b == 2) { KdTreeBuilderTBB b; b.max_leaf_size = leaf; t0 = std::make_shared<KdTree<PointCloud>>(x, b); }
        else { KdTreeBuilder b; b.max_leaf_size = leaf; t0 = std::make_shared<KdTree<PointCloud>>(x, b); }
        search("tree", *t0, c.n, c.k, v, true);
        KdTreeBuilder b; b.max_leaf_size = leaf; b.projection_setting.max_scan_count = r.pick(IVec{1, 3, 128});
        UnsafeKdTree<PointCloud, NormalProjection> nt(*x, b);
        search("tree", nt, c.n, c.k, v, true);
        break;
      }
      case 1: { UnsafeProjectiveSearch<PointCloud> p(r.in(1, 60), r.in(1, 40), *x); search("proj", p, c.n, c.k, v, false); break; }
      case 2: {
        estimate_normals_covariances(*x, 5);
        auto one = [&](auto m) {
          m.set_search_offsets(r.pick(IVec{1, 7, 27}));
          for (int i = r.in(0, 2); i > 0; i--) m.insert(PointCloud());
          m.insert(*x);
          search("map", m, c.n, c.k, v, false);
          Ev(t, "sample").str("rule", "own").i("n", c.n).i("d", d).i("k", c.k).i("out", m.size()).b("ok", true);
          m.insert(PointCloud());
          search("map", m, c.n, c.k, v, false);
        };
        one(GaussianVoxelMap(1.0)); one(IncrementalVoxelMap<FlatContainerPoints>(1.0)); one(IncrementalVoxelMap<FlatContainerNormalCov>(1.0)); one(IncrementalVoxelMap<FlatContainerNormal>(1.0));
        break;
      }
      case 3: case 4: {
        const double leaf = c.o == 3 ? r.pick(std::vector<double>{1.0, 0.25}) : 1000;
        sampled(*(c.b == 1 ? voxelgrid_sampling_omp(*x, leaf, th) : c.b == 2 ? voxelgrid_sampling_tbb(*x, leaf) : voxelgrid_sampling(*x, leaf)), c.o == 3 ? "own" : "one", c.n, d, c.k);
        // everything outside the range of voxel coordinates
        for (auto& p : x->points) p[c.k % 3] += 1e9;
        sampled(*(c.b == 1 ? voxelgrid_sampling_omp(*x, 1.0, th) : c.b == 2 ? voxelgrid_sampling_tbb(*x, 1.0) : voxelgrid_sampling(*x, 1.0)), "none", c.n, d, c.k);
        break;
      }
      case 5: { std::mt19937 mt(1); sampled(*random_sampling(*x, c.k, mt), "random", c.n, d, c.k); sampled(*random_sampling(*x, 0, mt), "none", c.n, d, c.k); break; }
      case 6: case 7: case 8: features(c); break;
#endif
#if PART == 1
      case 9: pairs<ICPFactor, LevenbergMarquardtOptimizer>("icp", c, false); pairs<ICPFactor, GaussNewtonOptimizer>("icp_gn", c, false); break;
      case 10: pairs<PointToPlaneICPFactor, LevenbergMarquardtOptimizer>("plane", c, true); pairs<PointToPlaneICPFactor, GaussNewtonOptimizer>("plane_gn", c, true); break;
      case 11: pairs<GICPFactor, LevenbergMarquardtOptimizer>("gicp", c, false); pairs<RobustFactor<Cauchy, GICPFactor>, GaussNewtonOptimizer>("robust_gn", c, false); break;
      case 12: maps(c); break;
      default: break;
#endif
#if PART == 0
      case 13: helper(c); break;
      case 14: {
        std::vector<uint64_t> y;
        for (int i = 0; i < c.n; i++) y.push_back(c.s < 2 ? 7 : r.in(0, 9));
        auto z = y;
        std::sort(z.begin(), z.end());
        auto y2 = y;
        if (c.b == 2) radix_sort_tbb(y.data(), y.data() + y.size(), [](uint64_t k) { return k; });
        else { quick_sort_omp(y.begin(), y.end(), std::less<uint64_t>(), th); merge_sort_omp(y2.begin(), y2.end(), std::less<uint64_t>(), th); if (y2 != z) y.clear(), y.push_back(-1); }
        Ev(t, "sample").str("rule", "all").i("n", c.n).i("d", d).i("k", c.k).i("out", y.size()).b("ok", y == z);
        break;
      }
      default: break;
#endif
    }
  }
};

int main(int argc, char** argv) {
  Args a(argc, argv);
  Trace t(a.s("out"));
  Rng r(a.i("seed", 1));
  std::ostringstream quiet;
  std::cerr.rdbuf(quiet.rdbuf());   // warnings about small clouds
  std::cout.rdbuf(quiet.rdbuf());
  Run run{t, r, 1};
  const auto cases = read_cases(a.s("cases"));
  for (size_t i = a.i("shard", 0); i < cases.size(); i += a.i("nshards", 1)) {
    if ((PART == 1) != (cases[i][0] >= 9 && cases[i][0] <= 12)) continue;
    run.step({int(cases[i][0]), int(cases[i][1]), int(cases[i][2]), int(cases[i][3]), int(cases[i][4])});
    quiet.str("");
  }
  Ev(t, "end");
}
