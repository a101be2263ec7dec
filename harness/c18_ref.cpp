// The C++ interface behind plain C functions: the reference that executes the plans of the specification (serially).
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/ann/incremental_voxelmap.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/rejector.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <memory>
#include <vector>
#include <algorithm>
using namespace small_gicp;
#define API extern "C" __attribute__((visibility("default")))
namespace {
// matrices as rows
template <int R, int C> Eigen::Map<Eigen::Matrix<double, R, C, C == 1 ? Eigen::ColMajor : Eigen::RowMajor>> vec(double* d) { return Eigen::Map<Eigen::Matrix<double, R, C, C == 1 ? Eigen::ColMajor : Eigen::RowMajor>>(d); }
using Cloud = std::shared_ptr<PointCloud>;
std::vector<Cloud> clouds;
Cloud at(long h) { return clouds[h]; }
long put(Cloud c) { clouds.push_back(c); return clouds.size() - 1; }
Eigen::Isometry3d iso(const double* t) { return Eigen::Isometry3d(Eigen::Matrix4d(Eigen::Map<const Eigen::Matrix<double, 4, 4, Eigen::RowMajor>>(t))); }
struct Vox { virtual ~Vox() {} virtual void lru(size_t, size_t) = 0; virtual void insert(const PointCloud&, const Eigen::Isometry3d&) = 0; virtual long size() = 0; virtual long get(double*, double*, double*) = 0; };
template <typename M, bool N, bool C> struct VoxOf : Vox {
  M m;
  explicit VoxOf(double leaf) : m(leaf) {}
  void lru(size_t h, size_t c) override { m.lru_horizon = h; m.lru_clear_cycle = c; }
  void insert(const PointCloud& p, const Eigen::Isometry3d& T) override { m.insert(p, T); }
  long size() override { return m.size(); }
  long get(double* p, double* n, double* c) override {
    const auto pts = traits::voxel_points(m);
    const long k = pts.size();
    if (!p) return k;
    for (long i = 0; i < k; i++) vec<4, 1>(p + 4 * i) = pts[i];
    if constexpr (N) { const auto x = traits::voxel_normals(m); for (long i = 0; i < k; i++) vec<4, 1>(n + 4 * i) = x[i]; }
    if constexpr (C) { const auto x = traits::voxel_covs(m); for (long i = 0; i < k; i++) vec<4, 4>(c + 16 * i) = x[i]; }
    return k;
  }
};
std::vector<std::shared_ptr<Vox>> maps;
std::shared_ptr<GaussianVoxelMap> gmap;
template <typename F, typename Target, typename Tree>
void reg(const Target& target, const PointCloud& source, const Tree& tree, const Eigen::Isometry3d& T, double dist, int iters, double reps, double teps, double* o) {
  Registration<F, SerialReduction> r;
  r.rejector.max_dist_sq = dist * dist;
  r.criteria.rotation_eps = reps;
  r.criteria.translation_eps = teps;
  r.optimizer.max_iterations = iters;
  const auto res = r.align(target, source, tree, T);
  vec<4, 4>(o) = res.T_target_source.matrix();
  o[16] = res.converged; o[17] = res.iterations; o[18] = res.num_inliers;
  vec<6, 6>(o + 19) = res.H;
  vec<6, 1>(o + 55) = res.b;
  o[61] = res.error;
}
template <typename F>
void lin(const PointCloud& target, const PointCloud& source, double dist, const Eigen::Isometry3d& T, size_t i, double* o) {
  UnsafeKdTree<PointCloud> tree(target);
  DistanceRejector rej;
  rej.max_dist_sq = dist * dist;
  F f;
  Eigen::Matrix<double, 6, 6> H = Eigen::Matrix<double, 6, 6>::Zero();
  Eigen::Matrix<double, 6, 1> b = Eigen::Matrix<double, 6, 1>::Zero();
  double e = 0;
  o[0] = f.linearize(target, source, tree, T, i, rej, &H, &b, &e);
  vec<6, 6>(o + 1) = H;
  vec<6, 1>(o + 37) = b;
  o[43] = e;
}
}  // namespace
API void ref_reset() { clouds.clear(); maps.clear(); gmap.reset(); }
API long ref_cloud(const double* xyz, long n) {
  auto c = std::make_shared<PointCloud>();
  c->resize(n);
  for (long i = 0; i < n; i++) c->point(i) = Eigen::Vector4d(xyz[3 * i], xyz[3 * i + 1], xyz[3 * i + 2], 1.0);
  return put(c);
}
API long ref_size(long h) { return at(h)->size(); }
API void ref_get(long h, double* p, double* n, double* c) {
  for (size_t i = 0; i < at(h)->size(); i++) {
    vec<4, 1>(p + 4 * i) = at(h)->point(i);
    vec<4, 1>(n + 4 * i) = at(h)->normal(i);
    vec<4, 4>(c + 16 * i) = at(h)->cov(i);
  }
}
API long ref_down(long h, double res) {
  auto d = voxelgrid_sampling(*at(h), res);
  for (size_t i = 0; i < d->size(); i++) { d->normal(i).setZero(); d->cov(i).setZero(); }
  return put(d);
}
API void ref_feat(long h, int which, int k) {
  UnsafeKdTree<PointCloud> tree(*at(h));
  if (which == 0) estimate_normals(*at(h), tree, k);
  if (which == 1) estimate_covariances(*at(h), tree, k);
  if (which == 2) estimate_normals_covariances(*at(h), tree, k);
}
API void ref_map(long h, double leaf) { gmap = std::make_shared<GaussianVoxelMap>(leaf); gmap->insert(*at(h)); }
API void ref_reg(int type, long t, long s, const double* T, double dist, int iters, double reps, double teps, double* o) {
  UnsafeKdTree<PointCloud> tree(*at(t));
  if (type == 0) reg<ICPFactor>(*at(t), *at(s), tree, iso(T), dist, iters, reps, teps, o);
  if (type == 1) reg<PointToPlaneICPFactor>(*at(t), *at(s), tree, iso(T), dist, iters, reps, teps, o);
  if (type == 2) reg<GICPFactor>(*at(t), *at(s), tree, iso(T), dist, iters, reps, teps, o);
  if (type == 3) reg<GICPFactor>(*gmap, *at(s), *gmap, iso(T), dist, iters, reps, teps, o);
}
API void ref_lin(int type, long t, long s, double dist, const double* T, long i, double* o) {
  if (type == 0) lin<ICPFactor>(*at(t), *at(s), dist, iso(T), i, o);
  if (type == 1) lin<PointToPlaneICPFactor>(*at(t), *at(s), dist, iso(T), i, o);
  if (type == 2) lin<GICPFactor>(*at(t), *at(s), dist, iso(T), i, o);
}
// brute force; missing neighbours are -1
API void ref_query(long h, const double* q, long m, long k, double* d) {
  for (long i = 0; i < m; i++) {
    std::vector<double> all;
    for (const auto& p : at(h)->points) all.push_back((p.head<3>() - Eigen::Map<const Eigen::Vector3d>(q + 3 * i)).squaredNorm());
    std::sort(all.begin(), all.end());
    for (long j = 0; j < k; j++) d[i * k + j] = j < (long)all.size() ? all[j] : -1.0;
  }
}
API long ref_vox(int kind, double leaf) {
  std::shared_ptr<Vox> v;
  if (kind == 0) v = std::make_shared<VoxOf<IncrementalVoxelMap<FlatContainerPoints>, false, false>>(leaf);
  if (kind == 1) v = std::make_shared<VoxOf<IncrementalVoxelMap<FlatContainerNormal>, true, false>>(leaf);
  if (kind == 2) v = std::make_shared<VoxOf<IncrementalVoxelMap<FlatContainerCov>, false, true>>(leaf);
  if (kind == 3) v = std::make_shared<VoxOf<IncrementalVoxelMap<FlatContainerNormalCov>, true, true>>(leaf);
  if (kind == 4) v = std::make_shared<VoxOf<GaussianVoxelMap, false, true>>(leaf);
  maps.push_back(v);
  return maps.size() - 1;
}
API void ref_vox_lru(long v, long h, long c) { maps[v]->lru(h, c); }
API void ref_vox_insert(long v, long h, const double* T) { maps[v]->insert(*at(h), iso(T)); }
API long ref_vox_size(long v) { return maps[v]->size(); }
API long ref_vox_get(long v, double* p, double* n, double* c) { return maps[v]->get(p, n, c); }
