// Concurrent read-only requests on shared objects, logged for SharedTrace.tla.
#include "cases.hpp"
#include <condition_variable>
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/ann/incremental_voxelmap.hpp>
#include <small_gicp/ann/flat_container.hpp>
#include <small_gicp/ann/projective_search.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/factors/robust_kernel.hpp>
#include <small_gicp/factors/general_factor.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#ifndef NO_TBB
#include <small_gicp/registration/reduction_tbb.hpp>
#endif
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/registration/registration_helper.hpp>
using namespace small_gicp;
using namespace vt;

struct Digest {
  uint64_t h = 1469598103934665603ull;
  void bytes(const void* p, size_t n) { auto* c = static_cast<const unsigned char*>(p); for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull; }
  template <typename T> void pod(const T& v) { bytes(&v, sizeof(T)); }
  template <typename M> void mat(const M& m) { bytes(m.data(), m.size() * sizeof(typename M::Scalar)); }
  template <typename V> void mats(const V& v) { for (auto& m : v) mat(m); }
  IVec v() const { return {long(h & 0x3fffffff), long((h >> 30) & 0x3fffffff)}; }
};
static IVec join(IVec a, const IVec& b) { a.insert(a.end(), b.begin(), b.end()); return a; }

static PointCloud make_cloud(Rng& r, int n, double shift) {
  std::vector<Eigen::Vector4d> v;
  for (int i = 0; i < n; i++) {
    Eigen::Vector3d p(r.in(-30000, 30000) / 1e4, r.in(-30000, 30000) / 1e4, r.in(-30000, 30000) / 1e4);
    p[r.in(0, 2)] = 3;
    for (int k = 0; k < 3; k++) p[k] += r.in(-10000, 10000) / 2e5 + shift * (k + 1);
    if (i && r.chance(1, 20)) { v.push_back(v[r.in(0, i - 1)]); continue; }
    v.push_back({p[0], p[1], p[2], 1});
  }
  PointCloud c(v);
  estimate_normals_covariances(c, 10);
  return c;
}
static void content(Digest& d, const PointCloud& c) { d.mats(c.points); d.mats(c.normals); d.mats(c.covs); }

using Request = std::function<IVec()>;
struct World {
  std::shared_ptr<PointCloud> target;
  std::vector<PointCloud> sources;
  KdTree<PointCloud> tree;
  UnsafeKdTree<PointCloud, NormalProjection> ntree;
  IncrementalVoxelMap<FlatContainerNormalCov> map;
  GaussianVoxelMap gauss;
  UnsafeProjectiveSearch<PointCloud> proj;
  ProjectiveSearch<PointCloud> proj2;
  Registration<ICPFactor, SerialReduction> icp;
  Registration<GICPFactor, SerialReduction> gicp;
  Registration<PointToPlaneICPFactor, SerialReduction, NullFactor, DistanceRejector, GaussNewtonOptimizer> plane;
  Registration<RobustFactor<Huber, GICPFactor>, SerialReduction, RestrictDoFFactor> robust;
  Registration<GICPFactor, ParallelReductionOMP> omp;
#ifndef NO_TBB
  Registration<GICPFactor, ParallelReductionTBB> tbb;
#endif
  std::vector<Request> requests;
  std::vector<std::function<RegistrationResult()>> nears;
  static KdTreeBuilder builder(int leaf) { KdTreeBuilder b; b.max_leaf_size = leaf; return b; }

  World(Rng& r, int n)
      : target(std::make_shared<PointCloud>(make_cloud(r, n, 0))), tree(target, builder(r.in(1, 30))), ntree(*target, builder(r.in(1, 30))), map(r.in(5, 20) / 10.0), gauss(r.in(5, 20) / 10.0),
        proj(r.in(10, 200), r.in(10, 100), *target), proj2(r.in(10, 200), r.in(10, 100), target) {
    map.set_search_offsets(r.pick(IVec{1, 7, 27}));
    map.voxel_setting.max_num_points_in_cell = r.in(3, 60);
    map.insert(*target);
    gauss.insert(*target);
    for (int i = 0; i < 3; i++) sources.push_back(make_cloud(r, n, r.in(0, 60) / 1000.0));
    plane.optimizer.max_iterations = icp.optimizer.max_iterations = gicp.optimizer.max_iterations = robust.optimizer.max_iterations = 5;
    robust.general_factor.set_rotation_mask(Eigen::Array3d(1, 0, 1));
    omp.reduction.num_threads = 2;
    omp.optimizer.max_iterations = 2;
#ifndef NO_TBB
    tbb.optimizer.max_iterations = 2;
#endif
  }
  void digest(Digest& d) const {
    content(d, *target);
    for (auto& s : sources) content(d, s);
    auto nodes = [&](const auto& t) { for (auto i : t.indices) d.pod(i); d.pod(t.root); for (auto& nd : t.nodes) { d.pod(nd.left); d.pod(nd.right); } };
    nodes(tree.kdtree);
    nodes(ntree);
    auto maps = [&](const auto& m) {
      d.pod(m.lru_counter); d.pod(m.lru_horizon); d.pod(m.lru_clear_cycle);
      for (auto& o : m.search_offsets) d.mat(o);
      for (auto& v : m.flat_voxels) { d.pod(v->first.lru); d.mat(v->first.coord); }
      d.pod(m.voxels.size());
    };
    maps(map);
    maps(gauss);
    for (auto& v : map.flat_voxels) { d.mats(v->second.points); d.mats(v->second.normals); d.mats(v->second.covs); }
    for (auto& v : gauss.flat_voxels) { d.mat(v->second.mean); d.mat(v->second.cov); d.pod(v->second.num_points); d.pod(v->second.finalized); }
    d.mat(proj.index_map);
    d.mat(proj2.search.index_map);
    for (double x : {icp.rejector.max_dist_sq, gicp.rejector.max_dist_sq, gicp.criteria.rotation_eps, robust.general_factor.lambda}) d.pod(x);
  }
  template <typename T>
  void search(Rng& r, const T& s) {
    Eigen::Vector4d q(r.in(-40, 40) / 10.0, r.in(-40, 40) / 10.0, r.in(-40, 40) / 10.0, 1);
    if (r.chance(1, 2)) q = target->point(r.in(0, target->size() - 1));
    const int k = r.pick(IVec{1, 2, 5, 10, 30});
    const bool nn = r.chance(1, 3);
    requests.push_back([&s, q, k, nn]() {
      std::vector<size_t> idx(k, 12345);
      std::vector<double> sq(k, -1);
      const size_t n = nn ? traits::nearest_neighbor_search(s, q, idx.data(), sq.data()) : traits::knn_search(s, q, k, idx.data(), sq.data());
      Digest d;
      for (size_t i = 0; i < n; i++) { d.pod(idx[i]); d.pod(sq[i]); }
      return join({long(n)}, d.v());
    });
  }
  static IVec answer(const RegistrationResult& a) {
    Digest d;
    d.mat(a.T_target_source.matrix()); d.mat(a.H); d.mat(a.b); d.pod(a.error);
    return join({long(a.iterations), long(a.num_inliers), long(a.converged)}, d.v());
  }
  template <typename Reg, typename Target, typename Tree>
  void align(Rng& r, const Reg& g, const Target& t, const Tree& s) {
    const PointCloud& src = r.pick(sources);
    Eigen::Isometry3d T = Eigen::Isometry3d::Identity();
    T.translation() << r.in(-20, 20) / 200.0, r.in(-20, 20) / 200.0, r.in(-20, 20) / 200.0;
    requests.push_back([&g, &t, &s, &src, T]() { return answer(g.align(t, src, s, T)); });
  }
  template <typename Reg>
  void parallel(Rng& r, const Reg& g) {
    const PointCloud& src = r.pick(sources);
    nears.push_back([this, &g, &src]() { return g.align(*target, src, tree, Eigen::Isometry3d::Identity()); });
  }
  // every setting of the one-call helper, on the shared tree and map
  void helper(Rng& r) {
    const PointCloud& src = r.pick(sources);
    RegistrationSetting s;
    s.num_threads = 1;
    s.max_iterations = r.in(1, 4);
    s.max_correspondence_distance = r.pick(std::vector<double>{0.3, 1.0});
    s.type = r.pick(std::vector<RegistrationSetting::RegistrationType>{RegistrationSetting::ICP, RegistrationSetting::PLANE_ICP, RegistrationSetting::GICP, RegistrationSetting::VGICP});
    requests.push_back([this, &src, s]() { return answer(s.type == RegistrationSetting::VGICP ? small_gicp::align(gauss, src, Eigen::Isometry3d::Identity(), s) : small_gicp::align(*target, src, tree, Eigen::Isometry3d::Identity(), s)); });
  }
  // whole pipelines which only read the shared cloud
  void pipeline(Rng& r) {
    const PointCloud& src = r.pick(sources);
    const double leaf = r.in(2, 15) / 10.0;
    const int what = r.in(0, 3), k = r.in(2, 20), lf = r.in(1, 30);
    requests.push_back([this, &src, leaf, what, k, lf]() {
      Digest d;
      if (what == 0) d.mats(voxelgrid_sampling(src, leaf)->points);   // its other attributes are not set
      if (what == 1) { auto p = preprocess_points(src, leaf / 4, k, 1); content(d, *p.first); }
      if (what == 2) {
        auto p = std::make_shared<PointCloud>(src.points);
        KdTree<PointCloud> own(p, builder(lf));
        estimate_normals_covariances(*p, own, k);
        content(d, *p);
      }
      if (what == 3) { auto m = create_gaussian_voxelmap(src, leaf); for (auto& v : m->flat_voxels) { d.mat(v->second.mean); d.mat(v->second.cov); } }
      return d.v();
    });
  }
  void fill(Rng& r, int n) {
    while ((int)requests.size() < n) {
      switch (r.in(0, 13)) {
        case 0: case 1: search(r, tree); break;
        case 2: search(r, ntree); break;
        case 3: case 4: search(r, map); break;
        case 5: search(r, gauss); break;
        case 6: search(r, proj); break;
        case 7: search(r, proj2); break;
        case 8: align(r, icp, *target, tree); break;
        case 9: r.chance(1, 2) ? align(r, gicp, *target, tree) : align(r, gicp, gauss, gauss); break;
        case 10: r.chance(1, 2) ? align(r, plane, map, map) : align(r, plane, *target, proj); break;
        case 11: align(r, robust, *target, ntree); break;
        case 12: helper(r); break;
        case 13: pipeline(r); break;
      }
    }
    parallel(r, omp);
#ifndef NO_TBB
    parallel(r, tbb);
#endif
  }
};

int main(int argc, char** argv) {
  Args a(argc, argv);
  Trace t(a.s("out"));
  Rng r(a.i("seed", 1));
  for (int it = 0; it < a.i("iters", 5); it++) {
    World w(r, r.in(15, a.i("maxn", 150)));
    w.fill(r, a.i("requests", 60));
    Digest before;
    w.digest(before);
    Ev(t, "world").v("digest", before.v());
    for (size_t k = 0; k < w.requests.size(); k++) Ev(t, "alone").i("key", k + 1).v("ans", w.requests[k]());
    std::vector<RegistrationResult> alone;
    for (auto& f : w.nears) alone.push_back(f());
    const int nt = r.pick(IVec{2, 3, 4, 8});
    const long asks = a.i("asks", 200) / nt;
    std::vector<std::vector<std::pair<long, IVec>>> got(nt);
    std::vector<std::vector<double>> diffs(nt);
    std::vector<std::thread> ths;
    std::vector<uint64_t> seeds;
    for (int i = 0; i < nt; i++) seeds.push_back(r.next());
    const bool same = r.chance(1, 3);   // all callers ask the same things in the same order
    std::mutex m; std::condition_variable cv; int ready = 0;   // start together
    for (int i = 0; i < nt; i++) ths.emplace_back([&, i]() {
      Rng q(seeds[same ? 0 : i]);
      { std::unique_lock<std::mutex> lk(m); if (++ready == nt) cv.notify_all(); else cv.wait(lk, [&] { return ready == nt; }); }
      for (long j = 0; j < asks; j++) {
        const size_t k = q.in(0, w.requests.size() - 1);
        got[i].push_back({long(k) + 1, w.requests[k]()});
        if (q.chance(1, 60)) {
          const size_t n = q.in(0, w.nears.size() - 1);
          const auto b = w.nears[n]();
          diffs[i].push_back((b.T_target_source.matrix() - alone[n].T_target_source.matrix()).norm() + (b.H - alone[n].H).norm() / (1e-9 + alone[n].H.norm()) + (b.num_inliers != alone[n].num_inliers));
        }
      }
    });
    for (auto& th : ths) th.join();
    for (int i = 0; i < nt; i++) for (auto& g : got[i]) Ev(t, "ask").i("thr", i).i("key", g.first).v("ans", g.second);
    for (int i = 0; i < nt; i++) for (double d : diffs[i]) Ev(t, "near").i("thr", i).i("diff", quant(d, 1e7));
    Digest after;
    w.digest(after);
    Ev(t, "after").v("digest", after.v());
  }
  Ev(t, "end");
}
