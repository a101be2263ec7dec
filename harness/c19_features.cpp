// Normal and covariance estimation with every backend, with and without a supplied search, logged for FeatureTrace.tla.
#include "cases.hpp"
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <omp.h>
#ifndef NO_TBB
#include <small_gicp/util/normal_estimation_tbb.hpp>
#endif
using namespace small_gicp;
using namespace vt;
constexpr double Q = 16384.0;

static volatile int jitter = 0;
static void delay(uint64_t h) {
  if (!jitter) return;
  volatile unsigned x = 0;
  for (unsigned j = 0, n = (h * 2654435761u) % (unsigned)jitter; j < n; j++) x += j;
}

// A search with arbitrary answers: a function of the query point and of k only.
struct Scripted {
  const PointCloud* cloud;
  std::map<std::array<double, 3>, std::vector<size_t>> answers;
  size_t knn_search(const Eigen::Vector4d& p, int k, size_t* idx, double* d2, const KnnSetting& = KnnSetting()) const {
    const auto& a = answers.at({p[0], p[1], p[2]});
    const size_t n = std::min<size_t>(a.size(), k);
    for (size_t i = 0; i < n; i++) {
      idx[i] = a[i];
      d2[i] = (cloud->points[a[i]] - p).squaredNorm();
    }
    delay(std::hash<double>()(p[0] + 31 * p[1]) + k);
    return n;
  }
  size_t nearest_neighbor_search(const Eigen::Vector4d& p, size_t* idx, double* d2, const KnnSetting& s = KnnSetting()) const { return knn_search(p, 1, idx, d2, s); }
};
namespace small_gicp { namespace traits {
template <> struct Traits<Scripted> {
  static size_t knn_search(const Scripted& t, const Eigen::Vector4d& p, size_t k, size_t* i, double* d) { return t.knn_search(p, k, i, d); }
  static size_t nearest_neighbor_search(const Scripted& t, const Eigen::Vector4d& p, size_t* i, double* d) { return t.knn_search(p, 1, i, d); }
};
} }

enum How { SERIAL, OMP, TBB };
static const char* how_name[] = {"serial", "omp", "tbb"};
template <typename Tree>
static void estimate(PointCloud& c, Tree& tree, int k, char what, How how, int threads) {
  switch (how) {
    case SERIAL:
      if (what == 'n') estimate_normals(c, tree, k); else if (what == 'c') estimate_covariances(c, tree, k); else estimate_normals_covariances(c, tree, k);
      break;
    case OMP:
      if (what == 'n') estimate_normals_omp(c, tree, k, threads); else if (what == 'c') estimate_covariances_omp(c, tree, k, threads); else estimate_normals_covariances_omp(c, tree, k, threads);
      break;
    case TBB:
#ifndef NO_TBB
      if (what == 'n') estimate_normals_tbb(c, tree, k); else if (what == 'c') estimate_covariances_tbb(c, tree, k); else estimate_normals_covariances_tbb(c, tree, k);
#endif
      break;
  }
}
static void estimate_alone(PointCloud& c, int k, char what, How how, int threads) {
  switch (how) {
    case SERIAL:
      if (what == 'n') estimate_normals(c, k); else if (what == 'c') estimate_covariances(c, k); else estimate_normals_covariances(c, k);
      break;
    case OMP:
      if (what == 'n') estimate_normals_omp(c, k, threads); else if (what == 'c') estimate_covariances_omp(c, k, threads); else estimate_normals_covariances_omp(c, k, threads);
      break;
    case TBB:
#ifndef NO_TBB
      if (what == 'n') estimate_normals_tbb(c, k); else if (what == 'c') estimate_covariances_tbb(c, k); else estimate_normals_covariances_tbb(c, k);
#endif
      break;
  }
}

// From within a parallel region, where the library gets fewer threads than it asks for.
template <typename F>
static void nested(const F& f, bool in) {
  if (!in) return f();
#pragma omp parallel num_threads(2)
  if (omp_get_thread_num() == 0) f();
}

struct Frame { double scale; IVec off; };
static PointCloud make(const std::vector<IVec>& pts, const Frame& f) {
  PointCloud c;
  c.points.reserve(pts.size());
  for (auto& p : pts) c.points.emplace_back((p[0] + f.off[0]) * f.scale, (p[1] + f.off[1]) * f.scale, (p[2] + f.off[2]) * f.scale, 1.0);
  return c;
}
static bool bitsame(const std::vector<Eigen::Vector4d>& a, const std::vector<Eigen::Vector4d>& b) {
  return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), sizeof(Eigen::Vector4d) * a.size()));
}

// search: 0 none supplied, 1 KdTree, 2 UnsafeKdTree, 3 scripted
static void feat(Trace& t, const std::vector<IVec>& pts, const Frame& fr, int k, char what, How how, int search, int threads, const Scripted* script, const char* stale) {
  PointCloud c = make(pts, fr);
  const auto before = c.points;
  if (script) const_cast<Scripted*>(script)->cloud = &c;
  if (*stale) {  // attributes from earlier use
    c.normals.assign(pts.size() + (*stale == 'l' ? 3 : 0), Eigen::Vector4d(7, 7, 7, 7));
    c.covs.assign(pts.size(), Eigen::Matrix4d::Constant(7));
  }
  auto go = [&] {
    if (search == 0) estimate_alone(c, k, what, how, threads);
    if (search == 1) { KdTree<PointCloud> tree(std::make_shared<PointCloud>(c)); estimate(c, tree, k, what, how, threads); }
    if (search == 2) { PointCloud copy = c; UnsafeKdTree<PointCloud> tree(copy); estimate(c, tree, k, what, how, threads); }
    if (search == 3) estimate(c, *script, k, what, how, threads);
  };
  nested(go, how == OMP && pts.size() % 3 == 2);

  std::vector<IVec> nb, n, cv;
  IVec thr;
  bool shape = true;
  long size = pts.size();
  if (what != 'c' && c.normals.size() != pts.size()) size = -1;
  if (what != 'n' && c.covs.size() != pts.size()) size = -2;
  for (size_t i = 0; i < pts.size(); i++) {
    if (search == 3) {
      const auto& a = script->answers.at({before[i][0], before[i][1], before[i][2]});
      IVec v;
      for (size_t j = 0; j < std::min<size_t>(a.size(), k); j++) v.push_back(a[j] + 1);
      nb.push_back(v);
    } else {
      IVec d;
      for (auto& p : pts) d.push_back((p[0] - pts[i][0]) * (p[0] - pts[i][0]) + (p[1] - pts[i][1]) * (p[1] - pts[i][1]) + (p[2] - pts[i][2]) * (p[2] - pts[i][2]));
      std::sort(d.begin(), d.end());
      const size_t m = std::min<size_t>(k, d.size());
      thr.push_back(m < d.size() && d[m] == d[m - 1] ? -1 : d[m - 1]);
    }
    n.push_back({});
    cv.push_back({});
    if (what != 'c' && i < c.normals.size()) {
      for (int a = 0; a < 3; a++) n.back().push_back(quant(c.normals[i][a], Q));
      shape = shape && c.normals[i][3] == 0;
    }
    if (what != 'n' && i < c.covs.size()) {
      const auto& C = c.covs[i];
      for (int a = 0; a < 3; a++) for (int b = a; b < 3; b++) { cv.back().push_back(quant(C(a, b), Q)); shape = shape && std::abs(C(a, b) - C(b, a)) < 1e-12; }
      for (int a = 0; a < 4; a++) shape = shape && C(3, a) == 0 && C(a, 3) == 0;
    }
  }
  Ev(t, "feat").str("what", std::string(1, what)).str("how", how_name[how]).i("threads", threads).str("key", std::to_string(search == 3 ? 3 : 0) + "/" + std::to_string(k)).i("search", search)
    .i("k", k).b("kept", bitsame(before, c.points)).i("size", size).vv("nb", nb).v("thr", thr).vv("n", n).vv("c", cv).b("shape", shape);
}

static std::vector<IVec> small_cloud(Rng& r) {
  const int n = r.pick(std::vector<int>{0, 1, 3, 4, 5, 6, 7, 9, 12, 16, 20, 24});
  auto p = random_cloud(r, n, r.pick(IVec{1, 2, 4, 5}));
  if (r.chance(1, 3) && n) {  // a tilted plane
    const long a = r.in(-2, 2), b = r.in(-2, 2);
    for (auto& q : p) { q[0] = r.in(-3, 3); q[1] = r.in(-3, 3); q[2] = std::max(-6L, std::min(6L, a * q[0] + b * q[1])); }
  }
  return p;
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  Trace t(a.s("out"));
  Rng r(a.i("seed", 1));
  std::cerr.setstate(std::ios::failbit);
  const std::string mode = a.s("mode", "rand"), only = a.s("backend");
  jitter = a.i("jitter");
  const std::vector<Frame> frames{{0.25, {0, 0, 0}}, {1.0 / 1024, {0, 0, 0}}, {0.5, {2048, -4096, 100}}, {32.0, {0, 0, 0}}, {0.0625, {-300, 0, 4000}}, {1.0, {0, 5, 0}}};
  std::vector<How> hows{OMP};
#ifndef NO_TBB
  hows.push_back(TBB);
  if (only == "tbb") hows = {TBB};
#endif
  if (only == "omp") hows = {OMP};

  if (mode == "gen") {
    const auto cases = read_cases(a.s("cases"));
    for (size_t c = a.i("shard"); c < cases.size(); c += a.i("nshards", 1)) {
      std::vector<IVec> pts;
      for (size_t i = 0; i + 2 < cases[c].size(); i += 3) pts.push_back({cases[c][i], cases[c][i + 1], cases[c][i + 2]});
      if (pts.size() < 4 && c % 5) continue;
      const Frame& fr = frames[c % frames.size()];
      Ev(t, "cloud").vv("pts", pts).v("off", fr.off);
      const int k = 4 + r.in(0, 3);
      feat(t, pts, fr, k, 'b', SERIAL, c % 3, 1, nullptr, "");
      feat(t, pts, fr, k, "ncb"[c % 3], r.pick(hows), r.in(0, 2), r.in(1, 8), nullptr, "");
    }
  } else if (mode == "rand") {
    for (int it = 0; it < a.i("iters", 50); it++) {
      const auto pts = small_cloud(r);
      const Frame& fr = r.pick(frames);
      Ev(t, "cloud").vv("pts", pts).v("off", fr.off);
      const int k = r.pick(std::vector<int>{1, 4, 5, 5, 6, 8, 10, 20, 30});
      Scripted s;
      const PointCloud c = make(pts, fr);
      for (size_t i = 0; i < pts.size(); i++) {
        auto& v = s.answers[{c.points[i][0], c.points[i][1], c.points[i][2]}];
        v.clear();
        for (int m = r.pick(IVec{0, 1, 4, 5, 5, 6, 8, 12, 20}); m; m--) v.push_back(r.in(0, pts.size() - 1));
      }
      const bool scripted = r.chance(1, 2);
      for (int rep = 0; rep < 4; rep++) {
        const How h = rep == 0 ? SERIAL : r.chance(1, 4) && only.empty() ? SERIAL : r.pick(hows);
        feat(t, pts, fr, k, rep == 0 ? 'b' : "ncb"[r.in(0, 2)], h, scripted ? 3 : r.in(0, 2), r.pick(std::vector<int>{1, 2, 3, 4, 8, 16}), scripted ? &s : nullptr, r.pick(std::vector<const char*>{"", "", "s", "l"}));
      }
    }
  } else {
    // larger clouds: the backends agree with the serial estimation
    for (int it = 0; it < a.i("iters", 10); it++) {
      const int n = r.in(a.i("minn", 30), a.i("maxn", 600)), k = r.pick(std::vector<int>{5, 10, 20});
      PointCloud c;
      for (int i = 0; i < n; i++) c.points.emplace_back(r.in(-1000, 1000) / 171.0, r.in(-1000, 1000) / 173.0, r.in(-100, 100) / 177.0, 1.0);
      if (r.chance(1, 3)) for (int i = n / 2; i < n; i++) c.points[i] = c.points[i - n / 2];
      auto shared = std::make_shared<PointCloud>(c);
      KdTree<PointCloud> tree(shared);
      PointCloud base = c;
      estimate_normals_covariances(base, tree, k);
      for (int rep = 0; rep < 4; rep++) {
        PointCloud d = c;
        const How h = r.pick(hows);
        const char what = "ncb"[r.in(0, 2)];
        const bool alone = r.chance(1, 3);
        const int th = r.chance(1, 8) ? r.pick(std::vector<int>{33, 70}) : r.in(1, 8);
        nested([&] { if (alone) estimate_alone(d, k, what, h, th); else estimate(d, tree, k, what, h, th); }, h == OMP && r.chance(1, 4));
        double diff = 0, unit = 0;
        for (int i = 0; i < n; i++) {
          if (what != 'c') { diff = std::max(diff, (d.normals[i] - base.normals[i]).cwiseAbs().maxCoeff()); unit = std::max(unit, std::abs(d.normals[i].norm() - 1)); }
          if (what != 'n') { diff = std::max(diff, (d.covs[i] - base.covs[i]).cwiseAbs().maxCoeff()); unit = std::max(unit, std::abs(d.covs[i].trace() - 2.001)); }
        }
        Ev(t, "agree").str("what", std::string(1, what)).str("how", how_name[h]).i("n", n).i("k", k).i("threads", th).b("alone", alone).i("d", quant(diff, 1e6)).i("unit", quant(unit, 1e6)).b("kept", bitsame(c.points, d.points));
      }
    }
  }
  Ev(t, "end");
}
