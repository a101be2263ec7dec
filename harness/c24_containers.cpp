// Histories of every kind of point container, and every algorithm on every container with the same content, logged for ContainerTrace.tla.
#include "cases.hpp"
#include <pcl/point_types.h>
#include <pcl/point_cloud.h>
#include <small_gicp/points/eigen.hpp>
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/pcl/pcl_point.hpp>
#include <small_gicp/pcl/pcl_point_traits.hpp>
#include <small_gicp/pcl/pcl_proxy.hpp>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/kdtree_tbb.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/ann/incremental_voxelmap.hpp>
#include <small_gicp/ann/flat_container.hpp>
#include <small_gicp/ann/projective_search.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/downsampling_omp.hpp>
#include <small_gicp/util/downsampling_tbb.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/util/normal_estimation_tbb.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/reduction_tbb.hpp>
#include <small_gicp/registration/registration.hpp>
using namespace small_gicp;
using namespace vt;

// ---------------------------------------------------------------- value codes
static const std::vector<double> exact = {0, 1, -1.5, 0.25, 1024.125, -7, 3e-5f, 1e20f, 0.2f, std::numeric_limits<float>::max(), std::numeric_limits<float>::min(), INFINITY, -INFINITY, -0.0, NAN, 2, 3, 4, 5, 6};
static const std::vector<double> wide = {0.1, 1.0 / 3, 123456.789012345, -3.14159e-20, 1e10 + 1.0 / 3};
static bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)); }
static double value(long c) { return c < 100 ? exact[c] : wide[c - 100]; }
static long code(double v) {
  for (size_t i = 0; i < exact.size(); i++) if (same(v, exact[i])) return i;
  for (size_t i = 0; i < wide.size(); i++) { if (v == wide[i]) return 100 + i; if (v == double(float(wide[i]))) return 200 + i; }
  return -1;
}
static long draw(Rng& r) { return r.chance(1, 4) ? 100 + r.in(0, wide.size() - 1) : r.in(0, exact.size() - 1); }
template <typename M> IVec codes(const M& m) { IVec v; for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) v.push_back(code(m(i, j))); return v; }
static Eigen::Vector4d vec(const IVec& c, double w) { return {value(c[0]), value(c[1]), value(c[2]), w}; }
static Eigen::Matrix4d mat(const IVec& c) { Eigen::Matrix4d m = Eigen::Matrix4d::Zero(); for (int i = 0; i < 9; i++) m(i / 3, i % 3) = value(c[i]); return m; }

// ---------------------------------------------------------------- containers
template <typename C> struct Box;
template <> struct Box<PointCloud> {
  static constexpr bool P = true, N = true, C = true, X = false;
  std::shared_ptr<PointCloud> c = std::make_shared<PointCloud>();
  void under(size_t n) { c->resize(n); }
  void p(size_t i, const Eigen::Vector4d& v) { c->points[i] << v.head<3>(), 1; }
  void q(size_t i, const Eigen::Vector4d& v) { c->normals[i] << v.head<3>(), 0; }
  void cv(size_t i, const Eigen::Matrix4d& v) { c->covs[i] = v; }
};
template <> struct Box<Eigen::MatrixXd> {
  static constexpr bool P = false, N = false, C = false, X = false;
  std::shared_ptr<Eigen::MatrixXd> c;
  explicit Box(int cols = 3) : c(std::make_shared<Eigen::MatrixXd>(0, cols)) {}
  void under(size_t n) { c->conservativeResize(n, Eigen::NoChange); if (c->cols() > 3) c->col(3).setConstant(7); }   // further columns mean nothing
  void p(size_t i, const Eigen::Vector4d& v) { c->row(i).head<3>() = v.head<3>().transpose(); }
};
template <typename T> struct Box<pcl::PointCloud<T>> {
  static constexpr bool P = true;
  static constexpr bool X = std::is_same_v<T, pcl::PointXYZI> || std::is_same_v<T, pcl::PointXYZINormal>;
  static constexpr bool C = std::is_same_v<T, pcl::PointCovariance> || std::is_same_v<T, pcl::PointNormalCovariance>;
  static constexpr bool N = std::is_same_v<T, pcl::PointNormal> || std::is_same_v<T, pcl::PointXYZINormal> || std::is_same_v<T, pcl::PointNormalCovariance>;
  std::shared_ptr<pcl::PointCloud<T>> c = std::make_shared<pcl::PointCloud<T>>();
  void under(size_t n) { while (c->size() < n) { T t; c->push_back(t); } c->resize(n); }
  void p(size_t i, const Eigen::Vector4d& v) { auto& t = (*c)[i]; t.x = v[0]; t.y = v[1]; t.z = v[2]; }
  void q(size_t i, const Eigen::Vector4d& v) { if constexpr (N) { auto& t = (*c)[i]; t.normal_x = v[0]; t.normal_y = v[1]; t.normal_z = v[2]; } }
  void cv(size_t i, const Eigen::Matrix4d& v) { if constexpr (C) (*c)[i].cov.template topLeftCorner<3, 3>() = v.topLeftCorner<3, 3>().template cast<float>(); }
  void x(size_t i, double v) { if constexpr (X) (*c)[i].intensity = v; }
  double x(size_t i) const { if constexpr (X) return (*c)[i].intensity; else return 0; }
};
template <typename T> struct Box<PointCloudProxy<T>> {
  static constexpr bool P = false, N = false, C = true, X = false;
  Box<pcl::PointCloud<T>> cloud;
  std::shared_ptr<std::vector<Eigen::Matrix4d>> covs = std::make_shared<std::vector<Eigen::Matrix4d>>();
  std::shared_ptr<PointCloudProxy<T>> c = std::make_shared<PointCloudProxy<T>>(*cloud.c, *covs);
  void under(size_t n) { cloud.under(n); }
  void p(size_t i, const Eigen::Vector4d& v) { cloud.p(i, v); }
  void cv(size_t i, const Eigen::Matrix4d& v) { (*covs)[i] = v; }
};
// PART: compile only the containers with this number modulo 4
#ifdef PART
#define KIND(k, m) if constexpr ((k) % 4 == PART) f(k, m);
#else
#define KIND(k, m) f(k, m);
#endif
template <typename F> void each_kind(F&& f) {
  KIND(0, ([](Rng&) { return Box<PointCloud>(); }))
  KIND(1, ([](Rng& r) { return Box<Eigen::MatrixXd>(r.in(3, 4)); }))
  KIND(2, ([](Rng&) { return Box<pcl::PointCloud<pcl::PointXYZ>>(); }))
  KIND(3, ([](Rng&) { return Box<pcl::PointCloud<pcl::PointXYZI>>(); }))
  KIND(4, ([](Rng&) { return Box<pcl::PointCloud<pcl::PointNormal>>(); }))
  KIND(5, ([](Rng&) { return Box<pcl::PointCloud<pcl::PointXYZINormal>>(); }))
  KIND(6, ([](Rng&) { return Box<pcl::PointCloud<pcl::PointCovariance>>(); }))
  KIND(7, ([](Rng&) { return Box<pcl::PointCloud<pcl::PointNormalCovariance>>(); }))
  KIND(8, ([](Rng&) { return Box<PointCloudProxy<pcl::PointXYZ>>(); }))
  KIND(9, ([](Rng&) { return Box<PointCloudProxy<pcl::PointNormal>>(); }))
}

// ---------------------------------------------------------------- histories
template <typename B>
void dump(Trace& t, int kind, B& b, size_t m) {
  const auto& c = *b.c;
  Ev e(t, "dump");
  const size_t n = traits::size(c);
  std::vector<IVec> p, q, cv;
  IVec x;
  for (size_t i = 0; i < n; i++) {
    const Eigen::Vector4d v = traits::point(c, i);
    p.push_back(codes(v.transpose()));
  }
  e.i("size", n).i("hasp", traits::has_points(c)).vv("p", p);
  if constexpr (B::N) {
    for (size_t i = 0; i < n; i++) { const Eigen::Vector4d v = traits::normal(c, i); q.push_back(codes(v.transpose())); }
    e.i("hasn", traits::has_normals(c)).vv("n", q);
  }
  if constexpr (B::C) {
    for (size_t i = 0; i < m; i++) { const Eigen::Matrix4d v = traits::cov(c, i); cv.push_back(codes(v)); }
    e.i("hasc", traits::has_covs(c)).vv("c", cv);
  }
  if constexpr (B::X) { for (size_t i = 0; i < n; i++) x.push_back(code(b.x(i))); e.v("x", x); }
  (void)kind;
}
template <typename B>
void history(Trace& t, Rng& r, int kind, B b, const IVec& ops, bool gen) {
  Ev(t, "new").i("kind", kind);
  size_t n = 0, m = 0;
  const bool proxy = kind >= 8;
  auto& c = *b.c;
  auto resize = [&](size_t k) {
    if constexpr (B::P || B::C) {
      traits::resize(c, k);
      Ev(t, "resize").i("n", k);
      m = k;
      if (!proxy) n = k;
    }
  };
  auto under = [&](size_t k) { b.under(k); Ev(t, "under").i("n", k); n = k; if (!proxy) m = k; };
  auto step = [&](long o, size_t big) {
    auto grow = [&](long z) { return size_t(big ? r.in(0, big) : z); };
    if (o <= 2) { if (!B::P && !B::C) return; resize(grow(o)); }
    else if (o <= 5) under(grow(o - 3));
    else if (o <= 17) {
      const int a = (o - 6) / 4;
      const bool direct = (o - 6) & 1;
      const size_t size = a == 2 ? m : n;
      size_t i = ((o - 6) >> 1) & 1;
      if (big && size) i = r.in(0, size - 1);
      if (i >= size) return;
      IVec v;
      for (int k = 0; k < (a == 2 ? 9 : 3); k++) v.push_back(draw(r));
      if (a == 2 && r.chance(1, 2)) { v[3] = v[1]; v[6] = v[2]; v[7] = v[5]; }   // symmetric
      bool done = false;
      if (a == 0) {
        if (direct) { b.p(i, vec(v, 1)); done = true; }
        else if constexpr (B::P) { traits::set_point(c, i, vec(v, 1)); done = true; }
      }
      if constexpr (B::N) if (a == 1) { if (direct) b.q(i, vec(v, 0)); else traits::set_normal(c, i, vec(v, 0)); done = true; }
      if constexpr (B::C) if (a == 2) { if (direct) b.cv(i, mat(v)); else traits::set_cov(c, i, mat(v)); done = true; }
      if (!done) return;
      Ev(t, "set").str("a", a == 0 ? "p" : a == 1 ? "q" : "c").i("i", i + 1).v("v", v).str("via", direct ? "direct" : "traits");
    } else {
      if constexpr (B::X) {
        size_t i = o - 18;
        if (big && n) i = r.in(0, n - 1);
        if (i >= n) return;
        const long v = r.in(0, exact.size() - 1);
        b.x(i, value(v));
        Ev(t, "extra").i("i", i + 1).i("v", v);
      } else return;
    }
    dump(t, kind, b, m);
  };
  if (gen) { resize(2); under(2); dump(t, kind, b, m); }
  for (long o : ops) step(o, gen ? 0 : r.pick(IVec{2, 5, 12, 40}));
}
template <typename T, int D>
void construct(Trace& t, Rng& r) {
  const int n = r.in(0, 6);
  std::vector<Eigen::Matrix<T, D, 1>> in;
  std::vector<IVec> v;
  for (int i = 0; i < n; i++) {
    v.push_back({r.in(0, 5), r.in(0, 5), r.in(0, 5)});
    if (std::is_same_v<T, int>) for (auto& x : v.back()) x = r.pick(IVec{0, 1, 5, 15, 16});
    if (std::is_same_v<T, double> && r.chance(1, 2)) for (auto& x : v.back()) x = 100 + r.in(0, 4);
    Eigen::Matrix<T, D, 1> p;
    if constexpr (D == -1) p.resize(r.in(3, 5));
    p.setConstant(T(9));   // a fourth component of the input is not used
    for (int k = 0; k < 3; k++) p[k] = T(value(v.back()[k]));
    in.push_back(p);
  }
  Box<PointCloud> b;
  *b.c = PointCloud(in);
  Ev(t, "ctor").vv("v", v);
  dump(t, 0, b, n);
}

// ---------------------------------------------------------------- algorithms
struct Data {
  std::vector<Eigen::Vector4d> p, q;
  std::vector<Eigen::Matrix4d> c;
};
static Data make(Rng& r, int n, double shift) {
  std::vector<Eigen::Vector4d> v;
  for (int i = 0; i < n; i++) {
    Eigen::Vector3d p(r.in(-3000, 3000), r.in(-3000, 3000), r.in(-3000, 3000));
    p[r.in(0, 2)] = 3000;
    for (int k = 0; k < 3; k++) p[k] += r.in(-100, 100) + shift * (k + 1);
    p /= 1024;   // exact as floats
    v.push_back({p[0], p[1], p[2], 1});
  }
  PointCloud c(v);
  estimate_normals_covariances(c, 10);
  Data d;
  d.p = v;
  for (auto& x : c.normals) d.q.push_back(x.cast<float>().cast<double>());
  for (auto& x : c.covs) d.c.push_back(x.cast<float>().cast<double>());
  return d;
}
template <typename B>
void load(B& b, const Data& d) {
  b.under(d.p.size());
  if constexpr (B::C) traits::resize(*b.c, d.p.size());
  for (size_t i = 0; i < d.p.size(); i++) {
    if constexpr (B::P) traits::set_point(*b.c, i, d.p[i]); else b.p(i, d.p[i]);
    if constexpr (B::N) traits::set_normal(*b.c, i, d.q[i]);
    if constexpr (B::C) traits::set_cov(*b.c, i, d.c[i]);
  }
}
static void put(IVec& a, const Eigen::MatrixXd& m, double mul = 1e4) { for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) a.push_back(quant(m(i, j), mul)); }
static IVec rows(std::vector<IVec> r) { std::sort(r.begin(), r.end()); IVec a{long(r.size())}; for (auto& x : r) a.insert(a.end(), x.begin(), x.end()); return a; }
struct Setup {
  std::vector<Eigen::Vector4d> queries;
  int k, leaf, sample, builder, backend, nbr, threads;
  double voxel, corr;
  uint64_t seed;
  Eigen::Isometry3d T;
};
template <typename Tree>
IVec searches(const Tree& t, const Setup& s) {
  IVec a;
  for (auto& q : s.queries) {
    std::vector<size_t> i(s.k);
    std::vector<double> d(s.k);
    const size_t n = traits::knn_search(t, q, s.k, i.data(), d.data());
    a.push_back(n);
    for (size_t j = 0; j < n; j++) a.push_back(quant(d[j], 1e4));
    size_t one; double dist = -1;
    a.push_back(traits::nearest_neighbor_search(t, q, &one, &dist));
    if (a.back()) a.push_back(quant(dist, 1e4));
  }
  return a;
}
template <typename C>
std::shared_ptr<KdTree<C>> tree(const std::shared_ptr<C>& c, const Setup& s) {
  KdTreeBuilder b; b.max_leaf_size = s.leaf;
  if (s.builder == 1) { KdTreeBuilderOMP o(s.threads); o.max_leaf_size = s.leaf; return std::make_shared<KdTree<C>>(c, o); }
  if (s.builder == 2) { KdTreeBuilderTBB o; o.max_leaf_size = s.leaf; return std::make_shared<KdTree<C>>(c, o); }
  return std::make_shared<KdTree<C>>(c, b);
}
template <typename C> IVec cloud(const C& c) {
  std::vector<IVec> r;
  for (size_t i = 0; i < traits::size(c); i++) { IVec a; put(a, traits::point(c, i)); r.push_back(a); }
  return rows(r);
}
// averages over the output points: independent of their order
template <typename C> IVec means(const C& c) {
  const long n = traits::size(c);
  Eigen::Vector4d tot = Eigen::Vector4d::Zero(), sq = Eigen::Vector4d::Zero(), mix = Eigen::Vector4d::Zero();
  for (long i = 0; i < n; i++) { const Eigen::Vector4d p = traits::point(c, i); tot += p; sq += p.cwiseAbs2(); mix += p * p[1]; }
  IVec a{n};
  put(a, tot / double(n + 1)); put(a, sq / double(n + 1), 1e3); put(a, mix / double(n + 1), 1e3);
  return a;
}
template <typename F, typename Map, typename C>
IVec voxels(const C& c, const Setup& s) {
  Map m(s.voxel);
  m.insert(c, s.T);
  m.insert(c);
  IVec a{long(traits::size(m))};
  Eigen::MatrixXd acc = Eigen::MatrixXd::Zero(4, 6);
  long n = 0;
  for (auto& v : m.flat_voxels) {
    const auto& x = v->second;
    for (size_t i = 0; i < traits::size(x); i++, n++) {
      acc.col(0) += traits::point(x, i);
      acc.col(1) += traits::point(x, i).cwiseAbs2();
      F::add(acc, x, i);
    }
  }
  a.push_back(n);
  put(a, acc / double(n + 1), 1e4);
  return a;
}
struct Nothing { template <typename V> static void add(Eigen::MatrixXd&, const V&, size_t) {} };
struct Normals { template <typename V> static void add(Eigen::MatrixXd& a, const V& v, size_t i) { a.col(2) += traits::normal(v, i).cwiseAbs(); } };
struct Covs { template <typename V> static void add(Eigen::MatrixXd& a, const V& v, size_t i) { a.col(3) += traits::cov(v, i).diagonal(); a.col(4) += traits::cov(v, i).row(0).cwiseAbs().transpose(); a.col(5) += traits::cov(v, i).col(1).cwiseAbs(); } };

template <typename Fac, typename Tgt, typename Src, typename Tree>
IVec align(const Tgt& t, const Src& s, const Tree& tr, const Setup& st) {
  auto go = [&](auto reg) {
    reg.rejector.max_dist_sq = st.corr * st.corr;
    reg.optimizer.max_iterations = 4;
    reg.criteria.rotation_eps = reg.criteria.translation_eps = 0;
    const auto r = reg.align(t, s, tr, st.T);
    IVec a;
    put(a, r.T_target_source.matrix(), 1e5);
    return a;
  };
  if (st.backend == 1) { Registration<Fac, ParallelReductionOMP, NullFactor, DistanceRejector, GaussNewtonOptimizer> g; g.reduction.num_threads = st.threads; return go(g); }
  if (st.backend == 2) return go(Registration<Fac, ParallelReductionTBB, NullFactor, DistanceRejector, GaussNewtonOptimizer>());
  return go(Registration<Fac, SerialReduction, NullFactor, DistanceRejector, GaussNewtonOptimizer>());
}
// estimation writes into the container: works on a fresh one
template <typename B, typename Make>
IVec features(Make mk, const Data& d, const Setup& s, int what, Rng r) {
  B b = mk(r);
  b.under(d.p.size());
  if constexpr (B::C) traits::resize(*b.c, d.p.size());
  for (size_t i = 0; i < d.p.size(); i++) { if constexpr (B::P) traits::set_point(*b.c, i, d.p[i]); else b.p(i, d.p[i]); }
  auto& c = *b.c;
  auto tr = tree(b.c, s);
  const bool own = s.seed & 1;
  if constexpr (B::N) if (what == 0) { if (s.backend == 1) own ? estimate_normals_omp(c, s.nbr, s.threads) : estimate_normals_omp(c, *tr, s.nbr, s.threads); else if (s.backend == 2) own ? estimate_normals_tbb(c, s.nbr) : estimate_normals_tbb(c, *tr, s.nbr); else own ? estimate_normals(c, s.nbr) : estimate_normals(c, *tr, s.nbr); }
  if constexpr (B::C) if (what == 1) { if (s.backend == 1) own ? estimate_covariances_omp(c, s.nbr, s.threads) : estimate_covariances_omp(c, *tr, s.nbr, s.threads); else if (s.backend == 2) own ? estimate_covariances_tbb(c, s.nbr) : estimate_covariances_tbb(c, *tr, s.nbr); else own ? estimate_covariances(c, s.nbr) : estimate_covariances(c, *tr, s.nbr); }
  if constexpr (B::N && B::C) if (what == 2) { if (s.backend == 1) own ? estimate_normals_covariances_omp(c, s.nbr, s.threads) : estimate_normals_covariances_omp(c, *tr, s.nbr, s.threads); else if (s.backend == 2) own ? estimate_normals_covariances_tbb(c, s.nbr) : estimate_normals_covariances_tbb(c, *tr, s.nbr); else own ? estimate_normals_covariances(c, s.nbr) : estimate_normals_covariances(c, *tr, s.nbr); }
  IVec a;
  for (size_t i = 0; i < traits::size(c); i++) {
    put(a, traits::point(c, i));
    if constexpr (B::N) if (what != 1) put(a, traits::normal(c, i));
    if constexpr (B::C) if (what != 0) put(a, traits::cov(c, i));
  }
  return a;
}

template <typename B, typename O = typename std::remove_reference_t<decltype(*B::c)>> struct Out { using type = O; };
template <typename B>
std::vector<std::pair<int, IVec>> answers(int, B& b, B& src, const Box<PointCloud>& nt, const Box<PointCloud>& ns, const Setup& s) {
  using C = std::remove_reference_t<decltype(*b.c)>;
  std::vector<std::pair<int, IVec>> a;
  const C& c = *b.c;
  auto tr = tree(b.c, s);
  a.push_back({1, searches(*tr, s)});
  ProjectiveSearch<C> proj(90, 40, b.c);
  a.push_back({2, searches(proj, s)});
  a.push_back({3, means(*voxelgrid_sampling<C, PointCloud>(c, s.voxel))});
  a.push_back({4, voxels<Nothing, IncrementalVoxelMap<FlatContainerPoints>>(c, s)});
  { std::mt19937 mt(s.seed); a.push_back({5, cloud(*random_sampling<C, PointCloud>(c, s.sample, mt))}); }
  const PointCloud& ntc = *nt.c; const PointCloud& nsc = *ns.c;
  auto ntt = tree(nt.c, s);
  a.push_back({6, align<ICPFactor>(c, *src.c, *tr, s)});
  a.push_back({6, align<ICPFactor>(ntc, *src.c, *ntt, s)});
  a.push_back({6, align<ICPFactor>(c, nsc, *tr, s)});
  a.push_back({7, align<PointToPlaneICPFactor>(ntc, *src.c, *ntt, s)});
  a.push_back({15, means(*voxelgrid_sampling_omp<C, PointCloud>(c, s.voxel, s.threads))});
  a.push_back({16, means(*voxelgrid_sampling_tbb<C, PointCloud>(c, s.voxel))});
  if constexpr (B::P) {
    a.push_back({3, means(*voxelgrid_sampling(c, s.voxel))});
    a.push_back({3, means(*voxelgrid_sampling<PointCloud, C>(ntc, s.voxel))});
    a.push_back({15, means(*voxelgrid_sampling_omp(c, s.voxel, s.threads))});
    a.push_back({16, means(*voxelgrid_sampling_tbb(c, s.voxel))});
    std::mt19937 mt(s.seed);
    a.push_back({5, cloud(*random_sampling(c, s.sample, mt))});
  }
  if constexpr (B::N) {
    a.push_back({7, align<PointToPlaneICPFactor>(c, *src.c, *tr, s)});
    a.push_back({7, align<PointToPlaneICPFactor>(c, nsc, *tr, s)});
    a.push_back({8, voxels<Normals, IncrementalVoxelMap<FlatContainerNormal>>(c, s)});
  }
  if constexpr (B::C) {
    a.push_back({9, align<GICPFactor>(c, *src.c, *tr, s)});
    a.push_back({9, align<GICPFactor>(c, nsc, *tr, s)});
    a.push_back({9, align<GICPFactor>(ntc, *src.c, *ntt, s)});
    a.push_back({10, voxels<Covs, IncrementalVoxelMap<FlatContainerCov>>(c, s)});
    a.push_back({11, voxels<Covs, GaussianVoxelMap>(c, s)});
    GaussianVoxelMap m(s.voxel); m.insert(c);
    a.push_back({12, align<GICPFactor>(m, *src.c, m, s)});
  }
  if constexpr (B::N && B::C) a.push_back({14, voxels<Covs, IncrementalVoxelMap<FlatContainerNormalCov>>(c, s)});
  return a;
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  Trace t(a.s("out"));
  Rng r(a.i("seed", 1));
  const std::string mode = a.s("mode", "rand");
  if (mode == "gen") {
    const auto cases = read_cases(a.s("cases"));
    for (size_t i = a.i("shard", 0); i < cases.size(); i += a.i("nshards", 1))
      each_kind([&](int kind, auto mk) { if (kind == cases[i][0]) history(t, r, kind, mk(r), IVec(cases[i].begin() + 1, cases[i].end()), true); });
  } else if (mode == "rand") {
    for (int it = 0; it < a.i("iters", 20); it++) {
      each_kind([&](int kind, auto mk) {
        IVec ops;
        const int n = r.in(1, 14);
        for (int i = 0; i < n; i++) ops.push_back(i < 2 ? r.in(0, 5) : r.in(0, 24) % 20);
        history(t, r, kind, mk(r), ops, false);
      });
      construct<double, 4>(t, r); construct<double, 3>(t, r); construct<float, 3>(t, r); construct<float, 4>(t, r); construct<int, 3>(t, r); construct<double, -1>(t, r);
    }
  } else {
#ifndef HISTORY_ONLY
    for (int it = 0; it < a.i("iters", 5); it++) {
      const int n = r.chance(1, 6) ? r.in(1, 30) : r.in(60, a.i("maxn", 300));
      const Data dt = make(r, n, 0), ds = make(r, n, r.in(0, 40));
      Setup s;
      for (int i = 0; i < 5; i++) s.queries.push_back({r.in(-4000, 4000) / 1024.0, r.in(-4000, 4000) / 1024.0, r.in(-4000, 4000) / 1024.0, 1});
      s.k = r.pick(IVec{1, 3, 10, 20}); s.leaf = r.in(1, 40); s.sample = r.in(0, n); s.builder = r.in(0, 2); s.backend = r.in(0, 2); s.nbr = r.in(5, 20); s.threads = r.in(1, 6);
      if (n < 60) s.builder = s.backend = 0;   // too few points to pin the pose down: rounding of a parallel sum would show
      s.voxel = r.in(50, 200) / 100.0 + 0.0037; s.corr = r.in(80, 200) / 100.0; s.seed = r.next();
      s.T = Eigen::Isometry3d::Identity();
      s.T.translation() << r.in(-9, 9) / 100.0, r.in(-9, 9) / 100.0, r.in(-9, 9) / 100.0;
      s.T.linear() = (Eigen::AngleAxisd(r.in(-5, 5) / 100.0, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(r.in(-5, 5) / 100.0, Eigen::Vector3d::UnitX())).toRotationMatrix();
      Box<PointCloud> nt, ns;
      load(nt, dt); load(ns, ds);
      Ev(t, "content").i("n", n);
      std::map<int, IVec> base;
      for (auto& x : answers(0, nt, ns, nt, ns, s)) if (!base.count(x.first)) base[x.first] = x.second;
      base[20] = features<Box<PointCloud>>([](Rng&) { return Box<PointCloud>(); }, dt, s, 0, r);
      base[21] = features<Box<PointCloud>>([](Rng&) { return Box<PointCloud>(); }, dt, s, 1, r);
      base[22] = features<Box<PointCloud>>([](Rng&) { return Box<PointCloud>(); }, dt, s, 2, r);
      std::map<int, int> idx;
      for (auto& x : base) { const int num = idx.size() + 1; idx[x.first] = num; Ev(t, "native").i("alg", idx[x.first]).i("id", x.first).v("ans", x.second); }
      each_kind([&](int kind, auto mk) {
        auto bt = mk(r), bs = mk(r);
        using B = decltype(bt);
        load(bt, dt); load(bs, ds);
        auto res = answers(kind, bt, bs, nt, ns, s);
        if constexpr (B::N) res.push_back({20, features<B>(mk, dt, s, 0, r)});
        if constexpr (B::C) res.push_back({21, features<B>(mk, dt, s, 1, r)});
        if constexpr (B::N && B::C) res.push_back({22, features<B>(mk, dt, s, 2, r)});
        for (auto& x : res) Ev(t, "alg").i("alg", idx.at(x.first)).i("id", x.first).i("kind", kind).v("ans", x.second);
      });
    }
#endif
  }
  Ev(t, "end");
}
