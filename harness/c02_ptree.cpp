// Trees built by KdTreeBuilderOMP / KdTreeBuilderTBB under many schedules, queried, logged for KnnTrace.tla.
#include "cases.hpp"
#include "jitter_cloud.hpp"
#include "nested.hpp"
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/kdtree_omp.hpp>
#ifndef NO_TBB
#include <small_gicp/ann/kdtree_tbb.hpp>
#endif
using namespace small_gicp;
using namespace vt;

template <typename Tree>
static void ask(Trace& t, const Tree& tree, const IVec& q, int k) {
  std::vector<size_t> idx(k);
  std::vector<double> d2(k);
  const size_t n = tree.knn_search(Eigen::Vector4d(q[0], q[1], q[2], 1.0), k, idx.data(), d2.data());
  IVec i, d;
  for (size_t j = 0; j < std::min<size_t>(n, k); j++) { i.push_back(idx[j] > 2000000000ull ? -1 : (long)idx[j]); d.push_back(lat(d2[j])); }
  Ev(t, "knn").v("q", q).i("k", k).i("eps2", 0).v("idx", i).v("d2", d);
}

template <typename Proj, typename Builder>
static void build(Trace& t, const std::vector<IVec>& pts, const Builder& b, const std::vector<std::pair<IVec, int>>& asks, bool safe) {
  auto cloud = std::make_shared<JitterCloud>();
  for (auto& p : pts) cloud->points.emplace_back(p[0], p[1], p[2], 1.0);
  if (safe) {
    KdTree<JitterCloud, Proj> tree(cloud, b);
    for (auto& [q, k] : asks) ask(t, tree, q, k);
  } else {
    UnsafeKdTree<JitterCloud, Proj> tree(*cloud, b);
    for (auto& [q, k] : asks) ask(t, tree, q, k);
  }
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  Trace t(a.s("out"));
  Rng r(a.i("seed", 1));
  std::cerr.setstate(std::ios::failbit);
  jitter_rate() = a.i("jitter", 0);
  const int iters = a.i("iters", 10), maxn = a.i("maxn", 3000), minn = a.i("minn", 0);
  const bool tbb = a.s("backend") == "tbb";
  for (int it = 0; it < iters; it++) {
    int n = r.pick(std::vector<int>{1, 2, 5, 20, 21, 41, 200, 511, 512, 513, 514, 515, 1024, 1025, 1026, 1027, 2048, 2050, maxn});
    if (r.chance(1, 3)) n = r.in(0, maxn);
    n = minn ? static_cast<int>(r.in(minn, maxn)) : std::min(n, maxn);
    const long ext = minn ? 8000 : r.pick(std::vector<long>{3, 30, 500, 8000});
    auto pts = random_cloud(r, n, ext);
    std::vector<std::pair<IVec, int>> asks;
    for (int j = 0; j < (minn ? 16 : 6); j++) {
      IVec q{r.in(-ext, ext), r.in(-ext, ext), r.in(-ext, ext)};
      if (n && r.chance(1, 2)) q = pts[r.in(0, n - 1)];
      asks.emplace_back(q, r.pick(std::vector<int>{1, 1, 4, 20, 60}));
    }
    if (!minn) asks.emplace_back(IVec{r.in(-ext, ext), 0, 0}, n + 1);  // everything: no point may be lost
    const int leaf = minn ? 1 : r.pick(std::vector<int>{1, 1, 2, 3, 7, 20, 20, 60, 600});
    const int scan = r.pick(std::vector<int>{128, 128, 16, 5000});
    const int threads = r.pick(std::vector<int>{1, 2, 3, 4, 8, 16, 33, 70});
    const bool normal = r.chance(1, 2), safe = r.chance(1, 3);
    const Within place = some_place(r);
    Ev(t, "tree").vv("pts", pts).i("leaf", leaf).i("threads", threads).str("backend", tbb ? "tbb" : "omp").b("normal", normal);
    if (tbb) {
#ifndef NO_TBB
      KdTreeBuilderTBB b;
      b.max_leaf_size = leaf;
      b.projection_setting.max_scan_count = scan;
      within(place, [&] { normal ? build<NormalProjection>(t, pts, b, asks, safe) : build<AxisAlignedProjection>(t, pts, b, asks, safe); });
#endif
    } else {
      KdTreeBuilderOMP b(threads);
      b.max_leaf_size = leaf;
      b.projection_setting.max_scan_count = scan;
      within(place, [&] { normal ? build<NormalProjection>(t, pts, b, asks, safe) : build<AxisAlignedProjection>(t, pts, b, asks, safe); });
    }
  }
  Ev(t, "end");
}
