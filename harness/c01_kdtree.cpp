// Searches in UnsafeKdTree / KdTree through every public front end, logged for KnnTrace.tla.
#include "cases.hpp"
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/projection.hpp>
using namespace small_gicp;
using namespace vt;

struct Frame { double scale; Eigen::Vector3d off; };
static Eigen::Vector4d real(const IVec& p, const Frame& f) {
  return Eigen::Vector4d(p[0] * f.scale + f.off[0], p[1] * f.scale + f.off[1], p[2] * f.scale + f.off[2], 1.0);
}

template <typename Tree> struct IsUnsafe : std::false_type {};
template <typename P> struct IsUnsafe<UnsafeKdTree<PointCloud, P>> : std::true_type {};

template <typename Tree>
static void ask(Trace& t, const Tree& tree, const Frame& fr, const IVec& q, int k, int eps2, int front) {
  // exact-sized heap buffers, so that any write beyond k entries is caught
  const int cap = front == 1 ? 2 : front == 2 ? 5 : front == 3 ? 10 : front == 4 ? 1 : front == 5 ? 1 : front == 7 ? 1 : k;
  std::unique_ptr<size_t[]> idx(new size_t[cap]);
  std::unique_ptr<double[]> d2(new double[cap]);
  KnnSetting s;
  s.epsilon = 0.5 * eps2 * fr.scale * fr.scale;
  const Eigen::Vector4d p = real(q, fr);
  size_t n = 0;
  if constexpr (IsUnsafe<Tree>::value) {
    switch (front) {
      case 1: n = tree.template knn_search<2>(p, idx.get(), d2.get(), s); break;
      case 2: n = tree.template knn_search<5>(p, idx.get(), d2.get(), s); break;
      case 3: n = tree.template knn_search<10>(p, idx.get(), d2.get(), s); break;
      case 4: n = tree.template knn_search<1>(p, idx.get(), d2.get(), s); break;
    }
  }
  if (front == 0) n = eps2 ? tree.knn_search(p, k, idx.get(), d2.get(), s) : tree.knn_search(p, k, idx.get(), d2.get());
  if (front == 5) n = eps2 ? tree.nearest_neighbor_search(p, idx.get(), d2.get(), s) : tree.nearest_neighbor_search(p, idx.get(), d2.get());
  if (front == 6) { n = traits::knn_search(tree, p, k, idx.get(), d2.get()); eps2 = 0; }
  if (front == 7) { n = traits::nearest_neighbor_search(tree, p, idx.get(), d2.get()); eps2 = 0; }
  IVec i, d;
  for (size_t j = 0; j < std::min<size_t>(n, cap); j++) {
    i.push_back(idx[j] > 2000000000ull ? -1 : static_cast<long>(idx[j]));
    d.push_back(lat(d2[j], fr.scale * fr.scale));
  }
  if (n > static_cast<size_t>(cap)) i.push_back(-2);
  Ev(t, "knn").v("q", q).i("k", cap).i("eps2", eps2).v("idx", i).v("d2", d).i("front", front);
}

template <typename Proj>
static void unsafe_and_safe(Trace& t, std::shared_ptr<PointCloud> cloud, const std::vector<IVec>& pts, const Frame& fr, const KdTreeBuilder& b, int safe,
                            const std::vector<std::tuple<IVec, int, int, int>>& asks) {
  Ev(t, "tree").vv("pts", pts).i("leaf", b.max_leaf_size).i("safe", safe).i("proj", std::is_same_v<Proj, NormalProjection>);
  if (safe) {
    KdTree<PointCloud, Proj> tree(cloud, b);
    for (auto& [q, k, e, f] : asks) ask(t, tree, fr, q, k, e, (f >= 1 && f <= 4) ? 0 : f);
  } else {
    UnsafeKdTree<PointCloud, Proj> tree(*cloud, b);
    for (auto& [q, k, e, f] : asks) ask(t, tree, fr, q, k, e, f);
  }
}

static std::shared_ptr<PointCloud> make(const std::vector<IVec>& pts, const Frame& fr) {
  std::vector<Eigen::Vector4d> p;
  for (auto& q : pts) p.push_back(real(q, fr));
  return std::make_shared<PointCloud>(p);
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  Trace t(a.s("out"));
  Rng r(a.i("seed", 1));
  std::cerr.setstate(std::ios::failbit);
  const std::string mode = a.s("mode");
  const std::vector<Frame> frames = {{1.0, {0, 0, 0}}, {1.0 / 1024, {0, 0, 0}}, {1.0 / 1024, {262144, -131072, 4096}}, {64.0, {0, 0, 0}}, {0.0625, {1024, 1024, -2048}}};

  if (mode == "gen") {
    auto cases = read_cases(a.s("cases"));
    const long shard = a.i("shard"), nsh = a.i("nshards", 1);
    for (size_t c = 0; c < cases.size(); c++) {
      if (static_cast<long>(c % nsh) != shard) continue;
      std::vector<IVec> pts;
      for (size_t j = 0; j + 2 < cases[c].size(); j += 3) pts.push_back({cases[c][j], cases[c][j + 1], cases[c][j + 2]});
      const auto& fr = frames[c % frames.size()];
      auto cloud = make(pts, fr);
      for (int leaf = 1; leaf <= 3; leaf++)
        for (int proj = 0; proj < 2; proj++) {
          std::vector<std::tuple<IVec, int, int, int>> asks;
          const std::vector<IVec> qs = {{0, 0, 0}, {1, 1, 0}, {-3, 2, 1}};
          for (auto& q : qs) {
            for (int k = 1; k <= static_cast<int>(pts.size()) + 1; k++) asks.emplace_back(q, k, 0, k % 2 ? 0 : 6);
            asks.emplace_back(q, 1, 0, static_cast<int>(4 + r.in(0, 1) + 0));
            asks.emplace_back(q, 2, static_cast<int>(r.in(0, 2) * 5), static_cast<int>(r.in(0, 3)));
          }
          KdTreeBuilder b;
          b.max_leaf_size = leaf;
          b.projection_setting.max_scan_count = r.in(1, 6);
          if (proj) unsafe_and_safe<NormalProjection>(t, cloud, pts, fr, b, r.in(0, 1), asks);
          else unsafe_and_safe<AxisAlignedProjection>(t, cloud, pts, fr, b, r.in(0, 1), asks);
        }
    }
  } else {
    const int iters = a.i("iters", 10), maxn = a.i("maxn", 800), minn = a.i("minn", 0), queries = a.i("queries", 30);
    for (int it = 0; it < iters; it++) {
      const int n = minn ? r.in(minn, maxn) : r.chance(1, 12) ? r.in(0, 3) : r.chance(1, 3) ? r.in(1, 60) : r.in(1, maxn);
      const long ext = minn ? 8000 : r.pick(std::vector<long>{3, 10, 60, 500, 8000});
      auto pts = random_cloud(r, n, ext);
      const auto& fr = r.pick(frames);
      auto cloud = make(pts, fr);
      KdTreeBuilder b;
      b.max_leaf_size = minn ? 1 : r.pick(std::vector<int>{1, 2, 3, 5, 8, 20, 20, 64, 5000});
      b.projection_setting.max_scan_count = r.pick(std::vector<int>{128, 128, 1, 2, 3, 7, 64, 1000, 100000});
      std::vector<std::tuple<IVec, int, int, int>> asks;
      for (int j = 0; j < queries; j++) {
        IVec q{r.in(-ext, ext), r.in(-ext, ext), r.in(-ext, ext)};
        if (n && r.chance(1, 2)) { q = pts[r.in(0, n - 1)]; if (r.chance(1, 2)) q[r.in(0, 2)] += r.in(-2, 2); }
        if (r.chance(1, 10)) for (auto& c : q) c *= (ext <= 3000 ? 3 : 1);
        const int k = r.pick(minn ? std::vector<int>{1, 3, 40} : std::vector<int>{1, 2, 3, 5, 10, 17, 20, 40, std::max(1, n), n + 1, n + 7});
        asks.emplace_back(q, k, r.chance(1, 4) ? static_cast<int>(r.in(1, 4 * ext * std::min<long>(ext, 1000))) : 0, static_cast<int>(r.in(0, 7)));
      }
      const int safe = r.chance(1, 3);
      if (r.chance(1, 2)) unsafe_and_safe<AxisAlignedProjection>(t, cloud, pts, fr, b, safe, asks);
      else unsafe_and_safe<NormalProjection>(t, cloud, pts, fr, b, safe, asks);
    }
  }
  Ev(t, "end");
}
